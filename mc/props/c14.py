"""C14: a struct serializes as its fields in order and parses back."""
import io
import itertools
from array import array
from struct import pack
from mc.core import Space
from mc.again import struct_changes, record_changes
from mc import sfamily
from mc.sfamily import StructItem, Rec, construct, same, show, ALL, SIMPLE, ITEMS, COMPOSITE
from infi.instruct import UBInt8, UBInt16, Struct
from infi.instruct.array import FixedSizeArrayMarshal, VarSizeArrayMarshal, SumSizeArrayMarshal
from infi.instruct.struct import Field
from infi.instruct.struct.optional import OptionalField
from infi.instruct.struct.selector import StructSelectorMarshal
from infi.instruct.base import EMPTY_CONTEXT, ReadOnlyContext, WritableContext
from infi.instruct.errors import InstructError

ID = 'C14'
RULE = ('a case is one struct: up to three items of the grammar (numbers, text, buffers, arrays, nested structs, optional, constant, '
        'bit and lazy fields, selectors, padding, lengths from other fields), with all combinations of their values')
ASSUMPTIONS = ['text values do not have padding on the side from which it is stripped']


class Reader(object):
    """A stream that can only be read."""

    def __init__(self, data):
        self.stream = io.BytesIO(data)

    def read(self, n):
        return self.stream.read(n)


class Writer(object):
    def __init__(self):
        self.data = b''

    def write(self, data):
        self.data += bytes(data)


def check(ctx, s, combo, what):
    spec = s.spec(combo)
    want = s.encode_combo(combo)
    obj = construct(spec)
    ctx.true(same(obj, spec), "%s: constructed %s from %s" % (what, show(obj), spec))
    ctx.eq(obj.to_bytes(), want, "to_bytes of %s" % (what,))
    ctx.eq(s.cls.write_to_string(obj), want, "write_to_string of %s" % (what,))
    w = Writer()
    w.write(b'<')
    s.cls.write_to_stream(obj, w)
    ctx.eq(w.data, b'<' + want, "write_to_stream of %s" % (what,))
    ctx.true(same(obj, spec), "%s: serializing changed it to %s" % (what, show(obj)))

    def parsed(back, how):
        if not same(back, spec):
            ctx.fail("%s %s from %r gave %s", what, how, want, show(back))
        ctx.eq(back.to_bytes(), want, "to_bytes after %s of %s" % (how, what))
        ctx.step()
    parsed(s.cls.create_from_string(want), 'create_from_string')
    parsed(s.cls.create_from_string(want, WritableContext({'other': 1})), 'create_from_string with a context')
    parsed(s.cls.create_from_string(array('B', want)), 'create_from_string of an array')
    stream = io.BytesIO(b'<<' + want + b'\x01\xff\x02\x03')
    stream.seek(2)
    parsed(s.cls.create_from_stream(stream), 'create_from_stream')
    ctx.eq(stream.tell(), 2 + len(want), "end of stream after parsing %s" % (what,))
    parsed(s.cls.create_from_stream(Reader(want + b'\xff')), 'create_from_stream of a read-only stream')
    # in an object that's used again
    ctx.eq(obj.to_bytes(), want, "to_bytes again of %s" % (what,))
    ctx.state(what, repr(combo))


class Top(StructItem):
    encode_combo = sfamily.Fields.encode


def run(case, ctx):
    items, limit, how = case
    s = Top(items, name='Top')
    if how == 'context':
        s.define(_context_={'int_repr_format': '0x%x'})
    s.define()
    combos = sfamily.Fields.values(s, limit) if limit else s.few()
    for combo in combos:
        check(ctx, s, combo, "%s %s" % (items, combo))
        ctx.trace()
    for d in s.all_bad('f'):
        def write():
            return construct(Rec(s.cls, d)).to_bytes()
        ctx.rejects(write, "%s with %s" % (items, d))
    ctx.outcome('round trip')


def run_default(case, ctx):
    """Fields that were assigned after construction, or replaced."""
    items = case
    s = Top(items, name='Top')
    cls = s.define()
    combos = s.few()
    obj = construct(s.spec(combos[0]))
    if len(combos) < 2:
        combos = combos * 2
    for combo in combos[1:] + combos[:1]:
        for k, v in s.spec(combo).values.items():
            setattr(obj, k, construct(v))
        ctx.eq(obj.to_bytes(), s.encode_combo(combo), "to_bytes of %s after assigning %s" % (items, combo))
        ctx.step()
    parsed = cls.create_from_string(s.encode_combo(combos[0]))
    for combo in combos[1:] + combos[:1]:
        for k, v in s.spec(combo).values.items():
            setattr(parsed, k, construct(v))
        ctx.eq(parsed.to_bytes(), s.encode_combo(combo), "to_bytes of parsed %s after assigning %s" % (items, combo))
        ctx.true(same(parsed, s.spec(combo)), "parsed %s after assigning %s is %s" % (items, combo, show(parsed)))
        ctx.step()
    ctx.state(items)
    ctx.outcome('assigned')


def run_poly(case, ctx):
    """Instances of derived structs in places that are declared with the base."""
    place, base_items, items = case
    base = Top(base_items, name='Base')
    base.define()
    full = Top(base_items + items, name='Derived')
    full.define((base.cls,))
    marshal = {'field': lambda: base.cls, 'farr': lambda: FixedSizeArrayMarshal(2, base.cls), 'varr': lambda: VarSizeArrayMarshal(UBInt8, base.cls),
               'sarr': lambda: SumSizeArrayMarshal(UBInt16, base.cls), 'nested': lambda: base.cls, 'opt': lambda: base.cls, 'sel': lambda: None}[place]()
    if place == 'nested':
        inner = type(Struct)('Inner', (Struct,), dict(_fields_=[Field('i', base.cls), UBInt8('j')], __module__='case'))
        field = Field('x', inner)
    elif place == 'opt':
        field = OptionalField('x', marshal, lambda o, s, c: True)
    elif place == 'sel':
        field = Field('x', StructSelectorMarshal(UBInt8, {0: base.cls}, base.cls))
    else:
        field = Field('x', marshal)
    outer = type(Struct)('Outer', (Struct,), dict(_fields_=[UBInt8('h'), field, UBInt8('t')], __module__='case'))
    for combo in full.few():
        spec = Rec(full.cls, full.spec(combo).values, full.spec(combo).expected)
        data, few = full.encode_combo(combo), base.few()[0]
        obj, plain = construct(spec), construct(base.spec(few))
        ctx.true(same(obj, spec), "constructed %s" % (case,))
        ctx.eq(obj.to_bytes(), data, "to_bytes of %s %s" % (case, combo))
        ctx.eq(base.cls.write_to_string(obj), data, "the base's write_to_string of %s %s" % (case, combo))
        w = Writer()
        base.cls.write_to_stream(obj, w)
        ctx.eq(w.data, data, "the base's write_to_stream of %s %s" % (case, combo))
        plain_data = base.encode_combo(few)
        for mix in (0, 1):
            both = data + plain_data if not mix else plain_data + data
            x, want = {'field': lambda: (obj, data), 'farr': lambda: ([obj, plain][::1 - 2 * mix], both),
                       'varr': lambda: ([obj, plain][::1 - 2 * mix], b'\x02' + both),
                       'sarr': lambda: ([obj, plain][::1 - 2 * mix], pack('>H', len(both)) + both),
                       'nested': lambda: (inner(i=obj, j=9), data + b'\x09'), 'opt': lambda: (obj, data), 'sel': lambda: (obj, data)}[place]()
            o = outer(h=1, x=x, t=2)
            ctx.eq(o.to_bytes(), b'\x01' + want + b'\x02', "to_bytes of %s %s" % (case, combo))
            ctx.eq(outer.sizeof(o), 2 + len(want), "size of %s %s" % (case, combo))
            ctx.step()
        ctx.true(same(obj, spec), "%s: serializing changed it to %s" % (case, show(obj)))
        ctx.eq(full.cls.create_from_string(data).to_bytes(), data, "parsed %s" % (case,))
        ctx.state(repr(case), repr(combo))
    ctx.trace()
    ctx.outcome('derived')


def run_again(case, ctx):
    def look(obj, cls, data, fresh, what):
        ctx.eq(obj.to_bytes(), data, what)
        ctx.eq(cls.write_to_string(obj), data, what)
    struct_changes(case, look, ctx)


def gen_poly(items):
    def g():
        for place in ('field', 'farr', 'varr', 'sarr', 'nested', 'opt', 'sel'):
            for base_items in (['u8'], ['vstr', 'u8'], [['bits', [3, 5]]]):
                for extra in items:
                    yield [place, base_items, extra]
    return g


def gen(n, alphabet, limit=None, hows=('plain',)):
    def g():
        for how in hows:
            for items in itertools.product(alphabet, repeat=n):
                yield [list(items), limit, how]
    return g


PAIRS = ['u8', 'sle32', 'padl3', 'vstr', 'vbuf', 'rec', ['bits', [1, -2, 9, 4]], ['posbits', 0], ['pad', 3], 'ptr', ['opt', 'vstr'],
         ['const', 'u8'], ['lazy', ['u8', 'sle32']], ['sarr', 'vstr'], ['varr', ['struct', ['u8', 'ptr']]],
         ['struct', [['struct', ['ptr']], 'ptr']], ['derived', ['u8'], ['vstr']], ['sel', ['u8'], ['vstr']], ['fsel', 2, ['vstr'], []]]
TRIPLES = ['u8', 'vstr', ['bits', [3, 5]], 'ptr', ['opt', 'be16'], ['struct', ['ptr', ['opt', 'u8'], 'u8']], ['sel', ['u8'], ['vstr']]]
NESTED = [['struct', [['struct', [['struct', ['ptr', 'u8']], 'ptr']], 'ptr']], ['varr', ['varr', ['struct', ['ptr', ['opt', 'vstr']]]]],
          ['opt', ['struct', ['ptr']]], ['opt', ['sarr', ['struct', ['ptr']]]], ['sarr', ['struct', [['sarr', 'vstr'], 'ptr']]],
          ['sel', [['struct', ['ptr']]], [['varr', 'vstr']]], ['struct', [['lazy', [['struct', ['u8', 'be16']], ['bits', [4, 4]]]], 'ptr']],
          ['fsel', 2, [['fsel', 1, ['u8'], ['ptr']]], ['vstr']], ['farr', 2, ['struct', [['opt', 'ptr'] if False else 'ptr', 'vstr']]],
          ['derived', ['ptr'], [['opt', 'u8'], 'ptr']]]


LARGE = {'fields': (2048, 20), 'depth': (32, 12)}


def spaces(tier):
    need = ['round trip']
    if tier == 'quick':
        return [
            Space('one', gen(1, ALL, 200, ['plain', 'context']), run, 'every item alone', need + ['rejected']),
            Space('nested', gen(1, NESTED, 200, ['plain', 'context']), run, 'deeper nesting', need),
            Space('assign', lambda: ([i] for i in ALL), run_default, 'fields assigned after construction and after parsing', ['assigned']),
            Space('derived', gen_poly([['u8'], ['vstr'], ['ptr', 'u8']]), run_poly, 'derived structs in places declared with their base', ['derived']),
            Space('again', lambda: ([i] + j for i in ALL + NESTED for j in ([], ['u8'], ['vstr'])), run_again, 'the same object with other values', ['changed']),
            Space('two', gen(2, ALL + NESTED), run, 'all pairs of items', need + ['rejected']),
            Space('three', gen(3, TRIPLES + PAIRS[:8]), run, 'triples of items', need + ['rejected']),
        ]
    return [
        Space('one', gen(1, ALL, 1000, ['plain', 'context']), run, 'every item alone', need + ['rejected']),
        Space('nested', gen(1, NESTED, 1000, ['plain', 'context']), run, 'deeper nesting', need),
        Space('assign', lambda: ([i, j] for i in ALL for j in ALL), run_default, 'fields assigned after construction and after parsing', ['assigned']),
        Space('derived', gen_poly([[i] for i in ALL + NESTED]), run_poly, 'derived structs in places declared with their base', ['derived']),
        Space('again', lambda: ([i, j] for i in ALL + NESTED for j in ALL), run_again, 'the same object with other values', ['changed']),
        Space('two', gen(2, ALL + NESTED, 60), run, 'pairs of items', need + ['rejected']),
        Space('three', gen(3, ALL), run, 'all triples of items', need + ['rejected']),
        Space('four', gen(4, TRIPLES), run, 'four of few items', need + ['rejected']),
    ]
