"""C05: unpacking the packed form of a record gives the record back."""
import itertools
import struct
from mc.core import Space
from mc.again import record_changes
from mc import family
from mc.rec import record
from infi.instruct.buffer import (bytes_ref, uint_field, be_uint_field, list_field, buffer_field, uint8, b_uint16, after_ref, max_ref)
from mc.family import Program, programs, STATIC, DYNAMIC, TAILS

ID = 'C05'
RULE = ('a case is one record definition: up to three items laid out one after another (numbers, bit fields, text, bytes, '
        'lists, nested records, with lengths from fields, arithmetic, functions, total size or open ends), its way to '
        'write positions and its field names; each with all combinations of its values, with and without trailing bytes')
ASSUMPTIONS = ['text values do not end with the padding or strip byte (they are not stored)']

TRAILING = (b'', b'\xff\xfe\xfd\xfc\xfb\xfa\xf9')


def check(ctx, p, cls, combo, trailing):
    packed = cls(**p.set(combo)).pack()
    want = p.encode(combo)
    ctx.eq(bytes(packed), want, "packed form of %r with %s" % (p, p.set(combo)))
    fields = p.fields(combo)
    last = p.items[-1]
    for extra in trailing:
        if extra and not p.bounded and not getattr(last, 'self_delimited', False):
            continue
        for data in (want + extra, bytearray(want + extra)) if p.style == 'after' and not extra else (want + extra,):
            obj = cls()
            obj.unpack(data)
            for name, v in fields.items():
                got = getattr(obj, name)
                if not (got == v and type(got) == type(v)):
                    ctx.fail("%r: field %s of %s, unpacked from %r: got %r", p, name, fields, data, got)
            again = obj.pack()
            ctx.eq(bytes(again), want, "repacked form of %r" % (p,))
            ctx.eq(bytes(data), want + extra, "the input")
            ctx.step()
    ctx.state(p.kinds, p.style, p.names, repr(combo))


def run(case, ctx):
    kinds, style, names, trailing = case
    p = Program(kinds, style, names)
    cls = p.define()
    for combo in p.values():
        check(ctx, p, cls, combo, TRAILING if trailing else TRAILING[:1])
        ctx.trace()
    ctx.outcome('bounded' if p.bounded else 'open')


# ---------------------------------------------------------------- the same instance with other values

def run_again(case, ctx):
    def look(obj, cls, data, fresh, what):
        ctx.eq(bytes(obj.pack()), data, what + ": packed")
        ctx.eq(bytes(obj.pack()), data, what + ": packed again")
        other = cls()
        other.unpack(obj.pack())
        fresh.pack()            # sets what's computed
        ctx.eq(repr(other), repr(fresh), what + ": unpacked")
    kinds, style, names, first = case
    record_changes(kinds, style, names, look, ctx, first)


def gen_again(**kwargs):
    def g():
        for kinds, style, names in programs([0, 1], **kwargs):
            for k in range(len(list(Program(kinds, style, names).values()))):
                yield [kinds, style, names, k]
    return g


# ---------------------------------------------------------------- fields in several parts, the last of them open

PARTS = {
    # name: text of the positions of the closed parts, their bytes, where the open part starts
    'gap': ('0:2', [0, 1], 4), 'one': ('0', [0], 3), 'close': ('0:2', [0, 1], 3), 'late': ('4:6', [4, 5], 6),
    'swapped': ('4,0:2', [4, 0, 1], 5), 'before': ('3:5', [3, 4], 6), 'three': ('1,0', [1, 0], 4), 'zero': ('0:0', [], 4),
}
class Odd(family.Buffer):
    """11 bits, packed to two bytes."""
    a = uint_field(where=bytes_ref[0] + bytes_ref[1].bits[0:2])
    b = uint_field(where=bytes_ref[1].bits[2])

    def __eq__(self, other):
        return type(self) == type(other) and (self.a, self.b) == (other.a, other.b)

    def __ne__(self, other):
        return not self == other


def odd_bytes(o):
    return struct.pack('<H', o.a | o.b << 10)


PART_KINDS = {
    'odds': (2, lambda k: [Odd(a=0x2A5 + i, b=i & 1) for i in range(k)], lambda v: b''.join(map(odd_bytes, v))),
    'odd': (2, lambda k: Odd(a=0x2A5 + k, b=1), odd_bytes),
    'u8': (1, lambda k: [0xA0 + i for i in range(k)], lambda v: bytes(bytearray(v))),
    'u16': (2, lambda k: [0xB100 + i for i in range(k)], lambda v: struct.pack('>%dH' % len(v), *v)),
    'pairs': (3, lambda k: [family.Pair(x=0x1200 + i, y=5, z=10) for i in range(k)], lambda v: b''.join(family.pair_bytes(o) for o in v)),
    'blobs': (None, lambda k: [family.Blob(data=bytearray(range(i))) for i in range(k)], lambda v: b''.join(family.blob_bytes(o) for o in v)),
    'blob': (None, lambda k: family.Blob(data=bytearray(range(100, 100 + k))), lambda v: family.blob_bytes(v)),
}


def run_parts(case, ctx):
    name, kind, count, follow = case
    text, closed, start = PARTS[name]
    free = [i for i in range(start) if i not in closed]
    where = None
    for part in text.split(','):
        part = [int(x) for x in part.split(':')]
        part = bytes_ref[part[0]:part[1]] if len(part) == 2 else bytes_ref[part[0]]
        where = part if where is None else where + part
    where = where + bytes_ref[start:]
    unit, make, enc = PART_KINDS[kind]
    attrs = {}
    m = attrs['m'] = uint_field(where=bytes_ref[free[0]])
    element = {'u8': uint8, 'u16': b_uint16, 'pairs': family.Pair, 'blobs': family.Blob, 'odds': Odd}.get(kind)
    attrs['a'] = list_field(element, n=m, where=where) if element else buffer_field(Odd if kind == 'odd' else family.Blob, where=where)
    v = make(count)
    content = enc(v)
    if len(content) < len(closed):
        return
    end = start + len(content) - len(closed)
    values = dict(m=count, a=v)
    if follow != 'last':
        attrs['z'] = be_uint_field(where=bytes_ref[after_ref(attrs['a']):after_ref(attrs['a']) + 2] if follow == 'after'
                                   else bytes_ref[max_ref(after_ref(attrs['a']), 3):max_ref(after_ref(attrs['a']), 3) + 2])
        values['z'] = 0x5ACF
    want = bytearray(max(end, free[0] + 1))
    want[free[0]] = count
    for at, b in zip(closed + list(range(start, end)), bytearray(content)):
        want[at] = b
    if follow != 'last':
        want += b'\x5a\xcf'
    want = bytes(want)
    cls = record(attrs)
    obj = cls(**values)
    ctx.eq(bytes(obj.pack()), want, "packed form of %s" % (case,))
    ctx.eq(cls(**values).calc_byte_size(), len(want), "size of %s" % (case,))
    for extra in TRAILING:
        back = cls()
        ctx.eq(back.unpack(want + extra), len(want), "consumed size of %s followed by %r" % (case, extra))
        got = dict((n, getattr(back, n)) for n in values)
        ctx.eq(got, values, "fields of %s followed by %r" % (case, extra))
        ctx.eq(bytes(back.pack()), want, "repacked %s" % (case,))
        ctx.step()
    ctx.state(*case)
    ctx.trace()
    ctx.outcome(follow)


def gen_parts(counts):
    def g():
        for name in sorted(PARTS):
            for kind in ('u8', 'u16', 'pairs', 'blobs', 'blob', 'odds', 'odd'):
                for count in counts:
                    for follow in ('last', 'after', 'max'):
                        yield [name, kind, count, follow]
    return g


# ---------------------------------------------------------------- instances that were used before

def run_used(case, ctx):
    """All pairs of operations on one instance: what it had before doesn't matter."""
    kinds, style, names, limit = case
    p = Program(kinds, style, names)
    cls = p.define()
    combos = p.values(limit)
    packed = [p.encode(c) for c in combos]
    for i, j in itertools.product(range(len(combos)), repeat=2):
        for first in ('unpack', 'set', 'pack'):
            for then in ('unpack', 'set'):
                what = "%r %s %s, then %s %s" % (p, first, p.set(combos[i]), then, p.set(combos[j]))
                obj = cls()
                if first == 'unpack':
                    obj.unpack(packed[i])
                else:
                    for k, v in p.set(combos[i]).items():
                        setattr(obj, k, v)
                    if first == 'pack':
                        obj.pack()
                if then == 'unpack':
                    obj.unpack(packed[j])
                    got = dict((k, getattr(obj, k)) for k in p.fields(combos[j]))
                    ctx.eq(got, p.fields(combos[j]), "fields after %s" % what)
                else:
                    for k, v in p.set(combos[j]).items():
                        setattr(obj, k, v)
                ctx.eq(bytes(obj.pack()), packed[j], "packed form after %s" % what)
                ctx.step(2)
        ctx.state(repr(p), i, j)
    ctx.trace()
    ctx.outcome('bounded' if p.bounded else 'open')


def gen_used(lengths, limit, **kw):
    def g():
        for case in programs(lengths, **kw):
            yield case + [limit]
    return g


def gen(lengths, trailing=True, **kw):
    def g():
        for case in programs(lengths, **kw):
            yield case + [trailing]
    return g


LARGE = {'chain': (64, 12), 'lists': (128, 4)}


def spaces(tier):
    need = ['bounded', 'open']
    f = family
    parts = Space('parts', gen_parts(range(5) if tier == 'quick' else range(16)), run_parts,
                  'fields in several parts of which the last is open, with content that knows its size', ['last', 'after', 'max'])
    if tier == 'quick':
        return [
            parts,
            Space('again', gen_again(styles=['after'], names=['up']), run_again, 'the same instance with other values, replaced and in place', ['changed']),
            Space('used', gen_used([0, 1], 5), run_used, 'every pair of operations on one instance', need),
            Space('used two', gen_used([2], 4, names=['up', 'down'], static=[f.Flags], dynamic=[f.Bytes, f.Clamped, f.ListPairs, f.FuncBytes],
                                       tails=[f.TailBlobs, f.TotalRest]), run_used, 'the same for pairs of items', need),
            Space('one', gen([0, 1]), run, 'all items alone and before every kind of last item', need),
            Space('two', gen([2], names=['up', 'down'], static=[f.BE16, f.Flags, f.Split, f.Str4]), run, 'pairs of items, and a last item', need),
            Space('three', gen([3], static=[f.Flags], dynamic=[f.Bytes, f.FuncBytes], names=['lens'],
                               tails=[f.TailBlobs, f.TotalRest]), run, 'triples of few items', need),
        ]
    return [
        parts,
        Space('again', gen_again(), run_again, 'the same instance with other values, replaced and in place', ['changed']),
        Space('used', gen_used([0, 1], 20), run_used, 'every pair of operations on one instance', need),
        Space('used two', gen_used([2], 8), run_used, 'the same for pairs of items', need),
        Space('one', gen([0, 1]), run, 'all items alone and before every kind of last item', need),
        Space('two', gen([2]), run, 'all pairs of items, and a last item', need),
        Space('three', gen([3], static=[f.U8, f.Flags, f.Split, f.Str4, f.Nested, f.List3]), run, 'triples of items', need),
        Space('four', gen([4], static=[f.U8, f.Flags], dynamic=[f.Bytes, f.List16, f.FuncBytes, f.Clamped], names=['down'],
                          tails=[f.TailBytes, f.TailBlobs, f.TotalRest]), run, 'four of few items', need),
    ]
