"""C18: sizes reported for structs and their types are the sizes of the serialized forms."""
import itertools
import sys
from mc.core import Space
from mc.again import struct_changes, record_changes
from mc import sfamily
from mc.sfamily import StructItem, Rec, construct, show, ALL, SIMPLE, ITEMS, COMPOSITE, parse
from infi.instruct import *
from infi.instruct.base import Marshal, EMPTY_CONTEXT, MinMax, ZERO_MIN_MAX, UNBOUNDED_MIN_MAX
from infi.instruct.struct import Struct
from infi.instruct.array import FixedSizeArrayMarshal, VarSizeArrayMarshal, SumSizeArrayMarshal
from infi.instruct.string import VarSizeStringMarshal, VarSizeBufferMarshal
from mc.props.c14 import PAIRS, TRIPLES, NESTED

ID = 'C18'
RULE = ('structs: those of the grammar of C14 with all their values, before and after parsing, and around the limits of every prefix; '
        'bounds: all pairs (and triples) of bounds with ends around zero and the maximum')
ASSUMPTIONS = ['a selection by a function without given size bounds is unbounded', 'adapted record types have no size bounds (documented by NotImplementedError)']

M = sys.maxsize


def has(items, what):
    return any(i == what or isinstance(i, (list, tuple)) and has(i, what) for i in items)


def bounds(m):
    b = m.min_max_sizeof()
    return b.min, b.max


class Top(StructItem):
    pass


def check_instance(ctx, cls, obj, limits, size, what):
    for how, f in (('sizeof', lambda: cls.sizeof(obj)), ("the type's sizeof", lambda: type(obj).sizeof(obj)), ('sizeof of the base', lambda: Struct.sizeof(obj))):
        ctx.eq(f(), size, "%s of %s" % (how, what))
    ctx.eq(len(obj.to_bytes()), size, "length of %s" % what)
    if limits is not None:
        ctx.true(limits[0] <= size <= limits[1], "%s has a size of %d, outside of %s" % (what, size, limits))
        if limits[0] == limits[1]:
            ctx.outcome('fixed')
        else:
            ctx.outcome('between')


def run(case, ctx):
    items, limit = case
    s = Top(items, name='Top')
    cls = s.define()
    adapted = has(items, 'rec')
    what = "%s" % (items,)
    limits = None if adapted else bounds(cls)
    if not adapted:
        fixed = limits[0] == limits[1]
        if s.fixed and not has(items, 'fsel'):
            size = len(s.encode(s.values()[0]))
            ctx.eq(limits, (size, size), "size bounds of %s" % what)
        parts = [bounds(StructItem([i]).define()) for i in items]
        ctx.eq(limits, (min(M, sum(p[0] for p in parts)), min(M, sum(p[1] for p in parts))), "size bounds of %s, and of its parts %s" % (what, parts))
        array = [FixedSizeArrayMarshal(n, cls) for n in range(3)]
        ctx.eq([bounds(a) for a in array], [(0, 0), limits, (limits[0] * 2, min(M, limits[1] * 2))], "bounds of arrays of %s" % what)
    sizes = set()
    for combo in (sfamily.Fields.values(s, limit) if limit else s.few()):
        size = len(sfamily.Fields.encode(s, combo))
        sizes.add(size)
        spec = s.spec(combo)
        obj = construct(spec)
        check_instance(ctx, cls, obj, limits, size, "%s %s" % (what, combo))
        parsed = cls.create_from_string(obj.to_bytes())
        check_instance(ctx, cls, parsed, limits, size, "%s %s, parsed" % (what, combo))
        ctx.eq(VarSizeArrayMarshal(UBInt8, cls).sizeof([obj, parsed]), 1 + 2 * size, "size of a counted array of %s" % what)
        ctx.eq(SumSizeArrayMarshal(ULInt32, cls).sizeof([obj, parsed, obj]), 4 + 3 * size, "size of a sized array of %s" % what)
        derived = type(Struct)('Derived', (cls,), dict(_fields_=list(s.all_fields('f')) + [UBInt16('g')], __module__='case'))
        spec = Rec(derived, dict(spec.values, g=7))
        if limits:
            ctx.eq(bounds(derived), (min(M, limits[0] + 2), min(M, limits[1] + 2)), "size bounds of a derived struct of %s" % what)
        ctx.eq((cls.sizeof(construct(spec)), derived.sizeof(construct(spec))), (size + 2, size + 2), "size of a derived struct of %s" % what)
        ctx.state(what, repr(combo))
        ctx.step(6)
    ctx.trace()


def run_marshal(case, ctx):
    expr = case
    t = parse(expr)
    m = t.marshal()
    limits = None if expr == 'rec' or has([expr], 'rec') else bounds(m)
    if limits and t.fixed and not has([expr], 'fsel'):
        ctx.eq(limits, (t.size, t.size), "size bounds of %s" % (expr,))
        ctx.outcome('fixed')
    for v in t.values():
        n = len(t.encode(v))
        ctx.eq(m.sizeof(construct(v)), n, "size of %s as %s" % (v, expr))
        if limits:
            ctx.true(limits[0] <= n <= limits[1], "%s as %s has a size of %d, outside of %s" % (v, expr, n, limits))
            ctx.true(isinstance(m, type) or m.is_fixed_size() == (limits[0] == limits[1]), "is_fixed_size of %s" % (expr,))
        ctx.outcome('between')
        ctx.state(repr(expr), repr(v))
        ctx.step()
    ctx.trace()


def run_again(case, ctx):
    def look(obj, cls, data, fresh, what):
        check_instance(ctx, cls, obj, None, len(data), what)
    struct_changes(case, look, ctx)


class VarInt(Marshal):
    """A user's own prefix: one byte below 128, two bytes otherwise."""

    def create_from_stream(self, stream, context=EMPTY_CONTEXT, *args, **kwargs):
        n = bytearray(stream.read(1))[0]
        return n if n < 128 else n - 128 + (bytearray(stream.read(1))[0] << 7)

    def write_to_stream(self, n, stream, context=EMPTY_CONTEXT):
        stream.write(bytes(bytearray([n] if n < 128 else [n % 128 + 128, n >> 7])))

    def sizeof(self, n):
        return 1 if n < 128 else 2

    def min_max_sizeof(self):
        return MinMax(1, 2)


class PlainVarInt(Marshal):
    """The same without a word about its bounds."""
    create_from_stream, write_to_stream, sizeof = VarInt.create_from_stream, VarInt.write_to_stream, VarInt.sizeof


def run_varint(case, ctx):
    kind, n, declared = case
    VarInt = globals()[declared]
    if kind == 'str':
        m, v, size = VarSizeStringMarshal(VarInt(), b' ', 1), b'x' * n + b' ' * 3, n
    elif kind == 'buf':
        m, v, size = VarSizeBufferMarshal(VarInt()), b'\0' * n, n
    elif kind == 'varr':
        m, v, size = VarSizeArrayMarshal(VarInt(), UBInt16), [7] * n, 2 * n
    elif kind == 'sum':
        m, v, size = SumSizeArrayMarshal(VarInt(), UBInt8), [9] * n, n
    elif kind == 'numbers':
        m, v, size = FixedSizeArrayMarshal(3, VarInt()), [n, 0, 128], 2 if n < 128 else 3
    else:
        m, v, size = SumSizeArrayMarshal(VarInt(), VarSizeBufferMarshal(VarInt())), [b'a' * n, b'', b'b'], n + 4 + (n > 127)
    size += 1 if (size if kind not in ('varr',) else n) < 128 else 2
    if kind == 'numbers':
        size = 3 + (n > 127) + 1
    cls = type(Struct)('S', (Struct,), dict(_fields_=[UBInt8('a'), sfamily.Field('v', m), UBInt8('b')], __module__='case'))
    data = m.write_to_string(v)
    ctx.eq(len(data), size, "length of %s" % (case,))
    ctx.eq(m.sizeof(v), size, "size of %s" % (case,))
    ctx.eq(cls.sizeof(cls(a=1, v=v, b=2)), size + 2, "size of %s in a struct" % (case,))
    limits = bounds(m)
    ctx.true(limits[0] <= size <= limits[1], "%s: size %d, bounds %s" % (case, size, limits))
    ctx.true(declared == 'VarInt' or limits[1] >= M, "%s: bounds %s, but there's no limit" % (case, limits))
    whole = bounds(cls)
    ctx.true(whole[0] <= size + 2 <= whole[1] and whole == (limits[0] + 2, clip(limits[1] + 2)), "bounds of a struct of %s are %s, and of its content %s" % (case, whole, limits))
    ctx.true(not m.is_fixed_size() and not sfamily.Field('v', m).is_fixed_size(), "%s: has a fixed size" % (case,))
    ctx.rejects(lambda: Lazy(UBInt8('a'), sfamily.Field('v', m)), "%s as a lazy field" % (case,))
    back = cls.create_from_string(b'\x01' + data + b'\x02')
    ctx.eq((back.a, back.b, cls.sizeof(back), back.to_bytes()), (1, 2, size + 2, b'\x01' + data + b'\x02'), "%s parsed" % (case,))
    ctx.state(*case)
    ctx.step()
    ctx.outcome('between')


def run_lengths(case, ctx):
    """Content of the largest length that the prefix can express."""
    kind, prefix, n = case
    p = {'UBInt8': UBInt8, 'SBInt8': SBInt8, 'UBInt16': UBInt16, 'SLInt16': SLInt16}[prefix]
    top = {'UBInt8': 255, 'SBInt8': 127, 'UBInt16': 65535, 'SLInt16': 32767}[prefix]
    head = 1 if prefix.endswith('8') else 2
    n = top + n
    if kind == 'str':
        m, v, size = VarSizeStringMarshal(p), b'x' * n, n
    elif kind == 'buf':
        m, v, size = VarSizeBufferMarshal(p), b'\0' * n, n
    elif kind == 'varr':
        m, v, size = VarSizeArrayMarshal(p, UBInt16), [7] * n, 2 * n
    elif kind == 'vstrs':
        m, v, size = VarSizeArrayMarshal(p, VarSizeStringMarshal(UBInt8)), [b'y' * 255] * (n if n < 300 else 3), 256 * (n if n < 300 else 3)
    elif kind == 'sum':
        m, v, size = SumSizeArrayMarshal(p, UBInt8), [9] * n, n
    elif kind == 'sumstr':
        m, v, size = SumSizeArrayMarshal(p, VarSizeStringMarshal(UBInt8)), [b'y' * (n - 1)] if n < 300 else [b'y' * 255] * (n // 256), n if n < 300 else n // 256 * 256
    else:
        m, v, size = FixedSizeArrayMarshal(2, VarSizeBufferMarshal(p)), [b'z' * n, b''], n + head
    size += head
    field = sfamily.Field('v', m)
    cls = type(Struct)('S', (Struct,), dict(_fields_=[field], __module__='case'))
    for what, limits, got, length in (('marshal', bounds(m), m.sizeof(v), len(m.write_to_string(v))),
                                      ('struct', bounds(cls), cls.sizeof(cls(v=v)), len(cls(v=v).to_bytes()))):
        ctx.eq((got, length), (size, size), "size of %s as a %s" % (case, what))
        ctx.true(limits[0] <= size <= limits[1] and limits[0] < limits[1], "%s as a %s: size %d, bounds %s" % (case, what, size, limits))
        ctx.step()
    ctx.state(*case)
    ctx.outcome('between')


def gen_lengths():
    for kind in ('str', 'buf', 'varr', 'vstrs', 'sum', 'sumstr', 'pair'):
        for prefix in ('UBInt8', 'SBInt8', 'UBInt16', 'SLInt16'):
            for n in (-1, 0):
                yield [kind, prefix, n]


# ---------------------------------------------------------------- selectors

CHOICES = {
    'b1': [UBInt8('k')], 'b2': [UBInt8('k'), UBInt8('v')], 'b5': [UBInt8('k'), UBInt32('v')], 'b9': [UBInt8('k'), UBInt64('v')],
    'var': [UBInt8('k'), sfamily.VarSizeString('v', UBInt8)],
}
CONTENT = {'b1': [{}], 'b2': [dict(v=3)], 'b5': [dict(v=4)], 'b9': [dict(v=5)], 'var': [dict(v=b''), dict(v=b'ab'), dict(v=b'c' * 255)]}
LIMITS = {'b1': (1, 1), 'b2': (2, 2), 'b5': (5, 5), 'b9': (9, 9), 'var': (2, 257)}


def run_selector(case, ctx):
    mapped, default, place = case
    classes = dict((n, type(Struct)(n, (Struct,), dict(_fields_=CHOICES[n], __module__='case'))) for n in sorted(set(mapped + [default]) - {None}))
    m = StructSelector(UBInt8, dict((k, classes[n]) for k, n in enumerate(mapped)), classes[default] if default else None)
    all_limits = [LIMITS[n] for n in mapped + [default] if n]
    want = min(l[0] for l in all_limits), max(l[1] for l in all_limits)
    ctx.eq(bounds(m), want, "size bounds of a selector of %s" % (case,))
    ctx.eq(m.is_fixed_size(), want[0] == want[1], "is_fixed_size of %s" % (case,))
    field = sfamily.Field('x', m)
    extra = (0, 0)
    if place == 'optional':
        field, want = sfamily.OptionalField('x', m, lambda o, s, c: True), (0, want[1])
    elif place == 'array':
        field, want = sfamily.Field('x', FixedSizeArrayMarshal(2, m)), (2 * want[0], 2 * want[1])
    elif place == 'nested':
        field = sfamily.Field('x', type(Struct)('In', (Struct,), dict(_fields_=[sfamily.Field('i', m)], __module__='case')))
    cls = type(Struct)('S', (Struct,), dict(_fields_=[UBInt16('h'), field], __module__='case'))
    want = want[0] + 2, want[1] + 2
    ctx.eq(bounds(cls), want, "size bounds of a struct with %s" % (case,))
    for k, n in list(enumerate(mapped)) + ([(77, default)] if default else []):
        for content in CONTENT[n]:
            o = classes[n](k=k, **content)
            size = LIMITS[n][0] + len(content.get('v', b'')) if n == 'var' else LIMITS[n][0]
            ctx.eq(m.sizeof(o), size, "size of %s in %s" % (content, case))
            x = [o, o] if place == 'array' else cls._fields_[1].marshal(i=o) if place == 'nested' else o
            s = cls(h=1, x=x)
            check_instance(ctx, cls, s, want, 2 + size * (2 if place == 'array' else 1), "%s of %s in %s" % (content, n, case))
            back = cls.create_from_string(s.to_bytes())
            check_instance(ctx, cls, back, want, 2 + size * (2 if place == 'array' else 1), "parsed %s of %s in %s" % (content, n, case))
            ctx.step()
    ctx.state(*case)
    ctx.trace()


def gen_selector():
    names = sorted(CHOICES)
    for n in (1, 2):
        for mapped in itertools.product(names, repeat=n):
            for default in [None] + names:
                for place in ('field', 'optional', 'array', 'nested'):
                    yield [list(mapped), default, place]


def run_func_selector(case, ctx):
    given, place = case
    cls = type(Struct)('A', (Struct,), dict(_fields_=[UBInt32('a')], __module__='case'))
    func = lambda obj, stream, context: cls
    m = SelectStructByFunc('x', func) if given is None else SelectStructByFunc('x', func, tuple(given))
    want = (0, M) if given is None else tuple(given)
    ctx.eq(bounds(m), want, "size bounds of a selection by function of %s" % (case,))
    if place == 'array':
        m, want = sfamily.Field('x', FixedSizeArrayMarshal(2, m.marshal)), tuple(min(M, 2 * w) for w in want)
    s = type(Struct)('S', (Struct,), dict(_fields_=[UBInt16('h'), m], __module__='case'))
    ctx.eq(bounds(s), tuple(min(M, w + 2) for w in want), "size bounds of a struct with %s" % (case,))
    x = [cls(a=1), cls(a=2)] if place == 'array' else cls(a=1)
    ctx.eq(s.sizeof(s(h=1, x=x)), 10 if place == 'array' else 6, "size")
    ctx.state(*case)
    ctx.step()
    ctx.outcome('fixed' if want[0] == want[1] else 'between')


# ---------------------------------------------------------------- bounds

VALUES = [-M - 5, -M, -7, -1, 0, 1, 2, 9, M // 2, M // 2 + 1, M - 9, M - 1, M, M + 1, M + 7, 3 * M]


def clip(n):
    return min(max(n, 0), M)


def run_bounds(case, ctx):
    a, b = case
    if a > b:
        for f in (lambda: MinMax(a, b), lambda: MinMax((a, b)), lambda: MinMax([a, b])):
            ctx.rejects(f, "MinMax of %d, %d" % (a, b))
        return
    want = clip(a), clip(b)
    forms = [MinMax(a, b), MinMax((a, b)), MinMax([a, b]), MinMax(MinMax(a, b))]
    if b == M:
        forms.append(MinMax(a))
    for m in forms:
        ctx.eq((m.min, m.max), want, "MinMax of %d, %d" % (a, b))
        ctx.eq((m[0], m[1]), want, "items of MinMax of %d, %d" % (a, b))
        ctx.eq(m.is_unbounded(), want[1] == M, "is_unbounded of MinMax of %d, %d" % (a, b))
        ctx.eq((repr(m), str(m)), ("MinMax(min=%d, max=%s)" % (want[0], 'unbounded' if want[1] == M else want[1]),) * 2, "repr")
    m = forms[0]
    ctx.eq(m + ZERO_MIN_MAX, m, "sum with zero")
    ctx.eq(ZERO_MIN_MAX + m, m, "sum with zero")
    for c, d in itertools.product(VALUES, repeat=2):
        if c <= d:
            t = m + MinMax(c, d)
            ctx.eq((t.min, t.max), (clip(want[0] + clip(c)), clip(want[1] + clip(d))), "MinMax(%d, %d) + MinMax(%d, %d)" % (a, b, c, d))
            ctx.true(isinstance(t, MinMax), "the sum is a %s" % type(t))
            u = MinMax(c, d) + m
            ctx.eq(t, u, "sum in the other order")
            for e in (0, 1, M):
                x = MinMax(e, M)
                ctx.eq((m + MinMax(c, d)) + x, m + (MinMax(c, d) + x), "sum of three")
                ctx.eq(sum([m, MinMax(c, d), x], ZERO_MIN_MAX), t + x, "sum of a list")
                ctx.step()
            ctx.state(a, b, c, d)
    ctx.eq((m.min, m.max), want, "after adding")
    ctx.outcome('sum')
    ctx.trace()


def gen_bounds():
    return ([a, b] for a in VALUES for b in VALUES)


def gen(n, alphabet, limit=None):
    return lambda: ([list(items), limit] for items in itertools.product(alphabet, repeat=n))


def marshals():
    for e in SIMPLE + COMPOSITE + NESTED:
        if isinstance(e, str) or e[0] not in ('opt', 'lazy', 'const'):
            yield e
            for wrap in (['farr', 2, e], ['varr', e], ['sarr', e], ['farr', 1, ['varr', e]], ['sarr', ['farr', 2, e]]):
                yield wrap


def run_padding(case, ctx):
    """Whatever is stripped from a string, its size is what's written."""
    padding, direction, size = case[0].encode('latin1'), case[1], case[2]
    for letters in itertools.product([b'a', b'\0', b' ', b'*'], repeat=size):
        v = b''.join(letters)
        for name, field in (('var', VarSizeString('v', UBInt16, padding, direction)), ('padded', PaddedString('v', 5, padding, direction))):
            cls = type(Struct)('S', (Struct,), dict(_fields_=[UBInt8('head', 1), field], __module__='case'))
            what = "%s of %s with %r" % (name, case, v)
            obj = cls(v=v)
            data = obj.to_bytes()
            ctx.eq(cls.sizeof(obj), len(data), "size of " + what)
            ctx.eq(field.marshal.sizeof(v), len(data) - 1, "size of the content of " + what)
            again = cls.create_from_string(data)
            ctx.eq(cls.sizeof(again), len(data), "size of parsed " + what)
            ctx.eq(again.to_bytes(), data, "bytes of parsed " + what)
            low, high = bounds(cls)
            ctx.true(low <= len(data) <= high, "%s has a size of %d, outside of its bounds" % (what, len(data)))
            ctx.step(5)
    ctx.state(*case)
    ctx.outcome('between')


def gen_padding(n):
    def gen():
        for padding in (' ', '\0', '\0 ', ' \0', '* \0'):
            for direction in (1, 2, 3):
                for size in range(n + 1):
                    yield [padding, direction, size]
    return gen


LARGE = {'fields': (512, 9), 'arrays': (4096, 12)}


def spaces(tier):
    quick = tier == 'quick'
    out = [
        Space('bounds', gen_bounds, run_bounds, 'size bounds and their sums', ['rejected', 'sum']),
        Space('lengths', gen_lengths, run_lengths, 'content at the limits of the prefix', ['between']),
        Space('varint', lambda: ([k, n, d] for d in ('VarInt', 'PlainVarInt') for k in ('str', 'buf', 'varr', 'sum', 'numbers', 'sumbuf') for n in (0, 1, 2, 3, 124, 125, 126, 127, 128, 129, 300)),
              run_varint, "a prefix whose size depends on its value", ['between']),
        Space('paddings', gen_padding(3 if quick else 5), run_padding, 'strings with paddings of several characters', ['between']),
        Space('selectors', gen_selector, run_selector, 'selectors of structs of all sizes, with and without a default', ['fixed', 'between']),
        Space('functions', lambda: ([g, p] for g in (None, [4, 4], [0, 9], [4, M]) for p in ('field', 'array')), run_func_selector,
              'selections by function, with and without given bounds', ['fixed', 'between']),
        Space('marshals', marshals, run_marshal, 'types by themselves', ['fixed', 'between']),
        Space('again', lambda: ([i] + j for i in ALL + NESTED for j in ([[], ['u8'], ['vstr']] if quick else [[x] for x in ALL])), run_again,
              'the same object with other values', ['changed']),
        Space('one', gen(1, ALL + NESTED, 200 if quick else 2000), run, 'every item alone', ['fixed', 'between']),
        Space('two', gen(2, ALL + NESTED, None if quick else 40), run, 'all pairs of items', ['fixed', 'between']),
        Space('three', gen(3, TRIPLES + ['rec', ['lazy', ['u8', 'sle32']], ['const', 'be16']] if quick else ALL), run, 'triples of items', ['fixed', 'between']),
    ]
    return out
