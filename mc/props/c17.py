"""C17: bit fields of structs, and the bit stream below them."""
import itertools
from mc.core import Space
from infi.instruct import *
from infi.instruct.struct import Struct
from infi.instruct.utils.bitstringio import BitStringIO
from infi.instruct.struct_macros import Bits

ID = 'C17'
RULE = ('layouts: every way to split 1 byte (and, with few parts, up to 8 bytes) into fields, flags and padding; every assignment of '
        'segments to fields as slices, in every order; streams: every history of writes, reads and seeks to a depth')
ASSUMPTIONS = ['bit fields that share bits are not specified', 'whether seeking to exactly the end of the bit stream succeeds is not specified',
               'the bits of a value past the written width are not specified (never passed)']


def compositions(total, parts):
    """All ordered splits of total into at most that many positive parts."""
    if total == 0:
        yield []
        return
    if parts == 0:
        return
    for first in range(1, total + 1):
        for rest in compositions(total - first, parts - 1):
            yield [first] + rest


PATTERN = 0x5A6D2C93F1E807B4C35A

FORMS = ('plain', 'between', 'array', 'lazy', 'derived', 'default')


class Layout(object):
    """Fields with the positions of their bits (from the least significant), or padding."""

    def __init__(self, fields, nbits, make):
        self.fields = fields       # [(name, [bit, ...])]
        self.nbits = nbits
        self.make = make           # defaults -> the group

    def encode(self, values):
        n = 0
        for (name, bits), v in zip(self.fields, values):
            for k, b in enumerate(bits):
                n |= (v >> k & 1) << b
        return self.data(n)

    def data(self, n):
        return bytes(bytearray(n >> k & 255 for k in range(0, self.nbits, 8)))

    def decode(self, data):
        n = 0
        for k, byte in enumerate(bytearray(data)):
            n |= byte << 8 * k
        return [sum((n >> b & 1) << k for k, b in enumerate(bits)) for name, bits in self.fields]

    def assignments(self):
        widths = [len(bits) for name, bits in self.fields]
        ones = [(1 << w) - 1 for w in widths]
        yield [0] * len(widths)
        yield ones
        for k in range(len(widths)):
            yield [o if k == i else 0 for i, o in enumerate(ones)]
            yield [o if k != i else 0 for i, o in enumerate(ones)]
        for s in (0, 7):
            yield [(PATTERN >> 3 * i + s) & o for i, o in enumerate(ones)]
        if sum(widths) <= 4:
            for t in itertools.product(*[range(o + 1) for o in ones]):
                yield list(t)

    def words(self, quick):
        if self.nbits == 8:
            return [self.data(n) for n in (range(256) if not quick else [0, 255, 0xA5, 0x5A, 0x36, 0xC9] + [1 << k for k in range(8)])]
        full = (1 << self.nbits) - 1
        return [self.data(n) for n in [0, full, PATTERN & full, PATTERN >> 5 & full] + [1 << k for k in range(self.nbits)]
                + [full ^ 1 << k for k in range(0, self.nbits, 3)]]


def struct_class(name, fields, bases=(Struct,)):
    return type(Struct)(name, bases, dict(_fields_=fields, __module__='case'))


def check_layout(ctx, layout, form, what, quick=True):
    names = [n for n, b in layout.fields]
    group = layout.make(None)
    before, after = b'', b''
    if form == 'plain':
        cls = struct_class('S', [group])
    elif form == 'between':
        cls = struct_class('S', [UBInt8('p'), group, UBInt8('q')])
        before, after = b'\xff', b'\xff'
    elif form == 'lazy':
        cls = struct_class('S', [UBInt8('p'), Lazy(group, UBInt8('q'))])
        before, after = b'\xff', b'\xff'
    elif form == 'derived':
        base = struct_class('Base', [group])
        cls = struct_class('S', base._fields_ + [UBInt8('q')], (base,))
        after = b'\xff'
    elif form == 'array':
        inner = struct_class('I', [group])
        cls = struct_class('S', [FixedSizeArray('a', 2, inner)])
    else:
        defaults = [v for v in layout.assignments()][-1]
        cls = struct_class('S', [layout.make(defaults)])
        ctx.eq(cls().to_bytes(), layout.encode(defaults), "defaults of %s" % what)
    size = layout.nbits // 8

    def create(values):
        kw = dict(zip(names, values))
        if form == 'array':
            return cls(a=[inner(**kw), inner(**dict.fromkeys(names, 0))])
        if before:
            kw['p'] = 255
        if after:
            kw['q'] = 255
        return cls(**kw)

    def wire(data):
        return before + data + after if form != 'array' else data + b'\0' * size

    def read(data):
        o = cls.create_from_string(data)
        if form == 'array':
            return [getattr(o.a[0], n) for n in names], [getattr(o.a[1], n) for n in names]
        if before and o.p != 255 or after and o.q != 255:
            ctx.fail("%s: fields beside the bits were disturbed", what)
        return [getattr(o, n) for n in names], None

    ctx.eq((cls.min_max_sizeof().min, cls.min_max_sizeof().max), (len(wire(b'\0' * size)),) * 2, "size of %s" % what)
    for values in layout.assignments():
        data = layout.encode(values)
        ctx.eq(create(values).to_bytes(), wire(data), "%s with %s" % (what, values))
        got, other = read(wire(data))
        ctx.eq(got, values, "%s parsed from %r" % (what, data))
        ctx.state(what, data)
        ctx.step(2)
        ctx.outcome('written')
    for data in layout.words(quick):
        got, other = read(wire(data) if form != 'array' else data + bytes(bytearray(255 - x for x in bytearray(data))))
        ctx.eq(got, layout.decode(data), "%s parsed from %r" % (what, data))
        if other is not None:
            ctx.eq(other, layout.decode(bytes(bytearray(255 - x for x in bytearray(data)))), "second %s" % what)
        ctx.step()
    for k, (name, bits) in enumerate(layout.fields):
        for bad in (1 << len(bits), (1 << len(bits) + 3) + 1, -1):
            values = [0] * len(names)
            values[k] = bad
            ctx.rejects(lambda: create(values).to_bytes(), "%s with %s=%d" % (what, name, bad))
    ctx.trace()


def sequential(widths, flags=False):
    fields, at = [], 0
    for k, w in enumerate(widths):
        if w >= 0:
            fields.append(('b%d' % k, list(range(at, at + w))))
        at += abs(w)
    def make(defaults):
        it = iter(defaults or [None] * len(widths))
        return BitFields(*[BitPadding(-w) if w < 0 else BitFlag('b%d' % k, next(it)) if w == 1 and flags else BitField('b%d' % k, w, next(it))
                           for k, w in enumerate(widths)])
    return Layout(fields, at, make)


def run_sequential(case, ctx):
    widths, form, flags = case
    check_layout(ctx, sequential(widths, flags), form, "%s %s" % (widths, form), True)


def signs(widths):
    for t in itertools.product((1, -1), repeat=len(widths)):
        if any(x > 0 for x in t):
            yield [w * s for w, s in zip(widths, t)]


def gen_sequential(tier):
    quick = tier == 'quick'

    def gen():
        n = 0
        for widths in compositions(8, 8):          # one byte: all splits, all ways to make parts of it padding
            for i, s in enumerate(signs(widths)):
                if quick and len(widths) > 4 and i % (8 if len(widths) < 7 else 31):
                    continue
                for form in FORMS if len(widths) <= 2 or not quick else FORMS[i % 6:i % 6 + 1]:
                    yield [s, form, len(widths) % 2 == 0]
        for nbytes, parts in ((2, 4 if quick else 5), (3, 3 if quick else 4), (4, 2 if quick else 3), (5, 2), (8, 2), (9, 2)):
            for widths in compositions(8 * nbytes, parts):
                if len(widths) <= 2:
                    for s in signs(widths):
                        n += 1
                        for form in FORMS if not quick else FORMS[n % 6:n % 6 + 1]:
                            yield [s, form, True]
                else:
                    yield [widths, FORMS[n % len(FORMS)], False]
                    yield [[-w if k == n % len(widths) else w for k, w in enumerate(widths)], 'between', False]
                n += 1
        for at in range(3):              # parts without any bits
            w = [3, 5]
            yield [w[:at] + [0] + w[at:], 'between', False]
    return gen


def run_ragged(case, ctx):
    widths = case
    def define():
        return struct_class('S', [UBInt8('p'), sequential(widths).make(None)])
    if sum(abs(w) for w in widths) % 8:
        ctx.rejects(define, "%s" % (widths,))
    else:
        define()
        ctx.outcome('accepted')
    ctx.state(*widths)


def gen_ragged(total):
    def gen():
        for n in range(1, total + 1):
            for widths in compositions(n, 3):
                for s in signs(widths):
                    yield s
    return gen


# ---------------------------------------------------------------- positions

def run_positional(case, ctx):
    cuts, labels, order, form, syntax = case
    slices = {}
    for k, label in enumerate(labels):
        if label >= 0:
            slices.setdefault(label, []).append((cuts[k], cuts[k + 1]))
    fields = []
    for label in sorted(slices):
        s = slices[label]
        if order == 'down':
            s.reverse()
        elif order == 'turn':
            s = s[1:] + s[:1]
        fields.append(('b%d' % label, s))
    if form == 'between':
        fields.reverse()
    stop = max(b for n, s in fields for a, b in s)

    def position(s):
        if syntax == 'bits':
            return Bits[s[0][0]:s[0][1]] if len(s) == 1 else Bits[tuple(slice(a, b) for a, b in s)]
        if syntax == 'slice' and len(s) == 1:
            return slice(*s[0])
        return (tuple if syntax == 'tuple' else list)(slice(a, b) for a, b in s)

    def make(defaults):
        it = iter(defaults or [None] * len(fields))
        return BitFields(*[BitField(n, position(s), next(it)) for n, s in fields])
    what = "%s %s" % (fields, form)
    if stop % 8:
        ctx.rejects(lambda: struct_class('S', [make(None)]), what)
        return
    check_layout(ctx, Layout([(n, [i for a, b in s for i in range(a, b)]) for n, s in fields], stop, make), form, what)


def gen_positional(tier):
    quick = tier == 'quick'

    def gen():
        n = 0
        for grid, most in (([0, 1, 4, 7, 8], 4), ([0, 3, 8, 9, 13, 16], 5 if not quick else 4), ([0, 5, 8, 11, 16, 20, 24], 6 if not quick else 3),
                           ([0, 7, 17, 32, 33, 40], 5 if not quick else 3), ([0, 1, 2, 3, 4, 5, 6, 7, 8], 8 if not quick else 4)):
            inner = grid[1:-1]
            for k in range(0, most):
                for mid in itertools.combinations(inner, k):
                    cuts = [grid[0]] + list(mid) + [grid[-1]]
                    for labels in growth(len(cuts) - 1, 3):
                        n += 1
                        if len(cuts) > 6 and n % 4:
                            continue
                        most_slices = max(labels.count(x) for x in labels if x >= 0)
                        for order in ('up', 'down', 'turn')[:most_slices if most_slices < 3 else 3]:
                            yield [cuts, labels, order, FORMS[n % 6] if quick or len(cuts) > 5 else FORMS[(n + len(order)) % 6],
                                   ('bits', 'slice', 'tuple', 'list')[n % 4]]
        for form in FORMS:
            yield [[0, 1, 4, 8], [0, 1, 0], 'down', form, 'bits']
            yield [[0, 1, 4, 9, 16], [0, 1, 0, 1], 'down', form, 'slice']
    return gen


def growth(n, labels):
    """Assignments of segments to fields (or none, -1), up to renaming."""
    def rec(prefix, used):
        if len(prefix) == n:
            if used:
                yield prefix
            return
        for x in range(-1, min(used + 1, labels)):
            for t in rec(prefix + [x], max(used, x + 1)):
                yield t
    return rec([], 0)


# ---------------------------------------------------------------- streams

class Model(object):
    """A sequence of bits with a position."""

    def __init__(self, data):
        self.bits = [b >> k & 1 for b in bytearray(data) for k in range(8)]
        self.at = 0

    def write(self, value, n):
        if self.at + n > len(self.bits):
            raise IOError()
        self.bits[self.at:self.at + n] = [value >> k & 1 for k in range(n)]
        self.at += n

    def read(self, n):
        if self.at + n > len(self.bits):
            raise IOError()
        self.at += n
        return sum(b << k for k, b in enumerate(self.bits[self.at - n:self.at]))

    def seek(self, at):
        if not 0 <= at < len(self.bits):
            raise IOError()
        self.at = at

    def value(self):
        return bytes(bytearray(sum(b << k for k, b in enumerate(self.bits[i:i + 8])) for i in range(0, len(self.bits), 8)))


def stream_ops(nbits):
    ops = []
    for n in (0, 1, 3, 7, 8, 9, 13, nbits):
        ops.append(['read', n])
        ops.append(['write', (1 << n) - 1, n])
    for n in (2, 5, 8, 11):
        ops.append(['write', 0, n])
        ops.append(['write', PATTERN & (1 << n) - 1, n])
    for at in (0, 1, 5, 8, 11, nbits - 1, nbits + 3, -1):
        ops.append(['seek', at])
    seen = []
    for op in ops:
        if op not in seen and op != ['seek', nbits]:
            seen.append(op)
    return seen


def apply(target, op):
    try:
        return 'ok', getattr(target, op[0])(*op[1:])
    except Exception:
        return 'refused', None


def run_stream(case, ctx):
    data, prefix, depth = case
    data = bytes(bytearray(data))
    ops = stream_ops(len(data) * 8)
    seen = {}

    def explore(history, depth):
        """Replays the history and tries every next operation."""
        for op in ops:
            real, model = BitStringIO(bytearray(data)), Model(data)
            for h in history:
                apply(real, h)
                apply(model, h)
            want = apply(model, op)
            got = apply(real, op)
            ctx.step()
            if op[0] != 'read':
                got = (got[0], None)
            ctx.eq(got, want, "%r: %s then %s" % (data, history, op))
            ctx.eq(real.getvalue(), model.value(), "content of %r after %s then %s" % (data, history, op))
            ctx.outcome(want[0])
            # where it stands, seen from outside
            rest = len(model.bits) - model.at
            probe = min(rest, 3)
            ctx.eq(apply(real, ['read', probe]), apply(model, ['read', probe]), "3 bits of %r after %s then %s" % (data, history, op))
            model.at -= probe
            key = (model.at, model.value())
            ctx.state(data, key)
            if depth > 1 and want[0] == 'ok' and seen.get(key, 0) < depth:
                seen[key] = depth
                explore(history + [op], depth - 1)
    explore(prefix, depth)
    ctx.trace()


def gen_streams(tier):
    depth = 2 if tier == 'quick' else 3

    def gen():
        for data in ([0], [0xB2], [0, 0], [0xB2, 0x4D], [0xFF, 0, 0xA7], [0xFF] * 3, [0, 0x81, 0x7E, 0xFF, 0x5A]):
            yield [data, [], depth]
            for op in stream_ops(len(data) * 8):
                yield [data, [op], depth]
    return gen


def run_single(case, ctx):
    """One operation at every position of every content."""
    nbytes, content, ns = case
    data = bytes(bytearray(content >> 8 * k & 255 for k in range(nbytes)))
    nbits = nbytes * 8
    for at in range(nbits):
        for n in range(0, nbits + 2):
            for op in [['read', n]] + [['write', v & (1 << n) - 1, n] for v in ns]:
                real, model = BitStringIO(data), Model(data)
                model.at = at
                real.seek(at)
                got, want = apply(real, op), apply(model, op)
                ctx.eq(got if op[0] == 'read' else got[:1] + (None,), want, "%s at %d of %r" % (op, at, data))
                ctx.eq(real.getvalue(), model.value(), "content after %s at %d of %r" % (op, at, data))
                ctx.step()
                ctx.outcome(want[0])
        ctx.state(content, at)
    ctx.trace()


def gen_single(tier):
    def gen():
        for content in (range(256) if tier != 'quick' else range(0, 256, 5)):
            yield [1, content, [0, 0xFF, 0xA5, 0x36]]
        for content in [0, 0xFFFF, 0xB24D, 0x8001] + [1 << k for k in range(16)]:
            yield [2, content, [0, 0xFFFF, 0x96A5]]
        for content in (0, 0xFFFFFF, 0xB24D1E):
            yield [3, content, [0, 0xFFFFFF, 0xC396A5]]
    return gen


def run_sizes(case, ctx):
    n = case
    s = BitStringIO(n)
    ctx.eq(s.getvalue(), b'\0' * n, "new stream of %d" % n)
    ctx.rejects(lambda: BitStringIO(n).write(0, 8 * n + 1), "%d bits in %d bytes" % (8 * n + 1, n))
    ctx.rejects(lambda: BitStringIO(n).read(8 * n + 1), "%d bits of %d bytes" % (8 * n + 1, n))
    if n:
        s.write((1 << 8 * n) - 1, 8 * n)
        ctx.eq(s.getvalue(), b'\xff' * n, "full stream of %d" % n)
    ctx.state(n)
    ctx.outcome('ok')


LARGE = {'bits': (512, 140)}


def spaces(tier):
    return [
        Space('sequential', gen_sequential(tier), run_sequential, 'fields, flags and padding in consecutive bits', ['written', 'rejected']),
        Space('ragged', gen_ragged(20 if tier == 'quick' else 40), run_ragged, 'groups that are or are not whole bytes', ['accepted', 'rejected']),
        Space('positional', gen_positional(tier), run_positional, 'fields in listed slices', ['written', 'rejected']),
        Space('stream', gen_streams(tier), run_stream, 'histories of the bit stream', ['ok', 'refused']),
        Space('single', gen_single(tier), run_single, 'one operation at every position', ['ok', 'refused']),
        Space('sizes', lambda: iter(range(6)), run_sizes, 'new streams', ['ok']),
    ]
