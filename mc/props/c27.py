"""C27: definitions, arguments and uses that have no meaning are refused."""
import io
import itertools
import operator
from mc.core import Space
from mc.family import Pair
from mc.rec import record
from infi.instruct import *
from infi.instruct.base import MinMax
from infi.instruct.errors import InstructError
from infi.instruct.struct import Struct, Field
from infi.instruct.mapping import FixedSizeMappingMarshal
from infi.instruct.struct_macros import Bits, ReadPointer
from infi.instruct.buffer import (Buffer, bytes_ref, uint_field, int_field, be_int_field, le_int_field, be_uint_field, le_uint_field, float_field,
                                  str_field, bytearray_field, list_field, buffer_field, json_field, uint8, b_uint16, str_type_factory, after_ref,
                                  len_ref, num_ref, self_ref, min_ref, max_ref, member_func_ref, total_size, input_buffer_length)
from infi.instruct.buffer.compat import buffer_to_struct_adapter
from infi.instruct.buffer.reference import Reference

ID = 'C27'
RULE = ('choices: all field kinds, sizes and arguments with a fixed set of choices, with each of the right and the wrong names; places: all combinations '
        'of the three arguments that give a place, with right and wrong values; indexes: all indexes and slices within bounds of bytes, bits and lists '
        'of pieces; computed: the same with bounds computed from fields, for all their values; operands: all operators with all pairs of kinds of '
        'operands; groups: all containers of struct fields with all kinds of content; uses: all kinds of fields with all kinds of wrong values')
ASSUMPTIONS = ['a definition is refused by an error when it is made, or by errors whenever a record of it is packed and unpacked',
               'equality and the sum with a number reference are not specified for references that are not numeric',
               'fractions as positions in bytes are not specified']

MISSING = object()
JUNK = {
    'missing': MISSING, 'None': None, 'zero': 0, 'one': 1, 'minus': -1, 'half': 0.5, 'true': True, 'false': False, 'empty': '', 'text': 'a', 'bytes': b'a',
    'list': [], 'ones': [1], 'dict': {}, 'object': object(), 'type': int, 'struct type': UBInt8, 'record': Pair, 'instance': Pair(x=1, y=2, z=3),
    'factory': bytes_ref, 'slice': slice(0, 1), 'places': [bytes_ref[0]], 'total': total_size, 'name': self_ref.f, 'text field': 'text field',
    'number field': 'number field', 'huge': 1 << 80, 'function': len, 'complex': 1j,
}


def unpacking(cls, data):
    def f():
        obj = cls()
        return obj.unpack(data), obj
    return f


def refused(ctx, define, value, data, what, sides=('pack', 'unpack')):
    """The definition is rejected, or both of its uses."""
    try:
        cls = define()
    except Exception:
        ctx.outcome('refused')
        ctx.step()
        return
    ctx.step(len(sides))
    if 'pack' in sides:
        ctx.rejects(lambda: cls(f=value).pack(), "packing " + what)
    if 'unpack' in sides:
        for d in (bytes(data), bytearray(data)):
            ctx.rejects(unpacking(cls, d), "unpacking " + what)
    ctx.outcome('refused in use')


def accepted(ctx, define, value, data, what, sides=('pack', 'unpack')):
    cls = define()
    if 'pack' in sides:
        cls(f=value).pack()
    unpacking(cls, bytes(data))()
    ctx.step(2)
    ctx.outcome('accepted')


DATA = bytes(bytearray([1] * 24))

# ---------------------------------------------------------------- names

ENDIANS = ('native', 'big', 'little', 'unspecified')
WRONG = {'endian': ['bigg', 'BIG', 'Little', 'b', '', ' big', 'left', 'signed', None, 0, 1, True],
         'sign': ['sign', 'Signed', 'UNSIGNED', 'unsign', '', 's', 'big', None, 0, 1, True],
         'justify': ['middle', 'Left', 'RIGHT', '', 'l', 'centre', 'both', None, 0, 1, True],
         'padding': ['', b'', b'ab', b'  ', b'abc'],
         'encoding': ['nope', 'asci', 'utf_7_8', '8', '  ']}
RIGHT = {'endian': list(ENDIANS), 'sign': ['signed', 'unsigned'], 'justify': ['left', 'right', 'center'], 'padding': [b'a', b' ', b'\0'],
         'encoding': ['ascii', 'utf-8', 'latin-1']}
NUMBERS = {'int': int_field, 'uint': uint_field, 'be_int': be_int_field, 'le_int': le_int_field, 'be_uint': be_uint_field, 'le_uint': le_uint_field,
           'float': float_field}
BITS = [1, 4, 7, 8, 9, 12, 16, 24, 32, 40, 48, 56, 64, 65, 72, None]


def place(bits):
    if bits is None:
        return bytes_ref[0:]
    if bits % 8:
        return bytes_ref[0:(bits + 7) // 8].bits[0:bits]
    return bytes_ref[0:bits // 8]


def run_choice(case, ctx):
    kind, form, argument, value, right = case
    kwargs = {argument: value}
    if kind in NUMBERS:
        bits, explicit = form
        content, data = (1.0, DATA if bits else DATA[:4]) if kind == 'float' else (1, DATA)
        def define():
            if explicit:
                return record(dict(f=NUMBERS[kind](where=place(bits), byte_size=bits // 8, **kwargs)))
            return record(dict(f=NUMBERS[kind](where=place(bits), **kwargs)))
    elif kind == 'str':
        content, data = 'b', b'b' * 8
        def define():
            return record(dict(f=str_field(where=bytes_ref[0:3] if form == 'closed' else bytes_ref[0:], **kwargs)))
    else:
        content, data = ['b', 'b'], b'b' * 6
        def define():
            return record(dict(f=list_field(str_type_factory(byte_size=3, **kwargs), n=2 if form == 'counted' else None, where=bytes_ref[0:6])))
    what = "%s" % (case,)
    if right:
        accepted(ctx, define, content, data, what, ('pack', 'unpack') if kind in ('str', 'texts', 'float') or form[0] else ('unpack',))
    else:
        refused(ctx, define, content, data, what)
    ctx.state(repr(case))
    ctx.trace()


def gen_choice():
    for right, table in ((True, RIGHT), (False, WRONG)):
        for kind in sorted(NUMBERS):
            for argument in ('endian', 'sign'):
                if argument == 'sign' and kind not in ('int', 'be_int', 'le_int') or argument == 'endian' and kind[:3] in ('be_', 'le_'):
                    continue
                for bits in BITS if kind != 'float' else (32, 64, None):
                    for explicit in (False, True) if bits and bits % 8 == 0 else (False,):
                        for value in table[argument]:
                            yield [kind, [bits, explicit], argument, value if not isinstance(value, bytes) else value.decode(), right]
        for argument in ('justify', 'padding', 'encoding'):
            for value in table[argument]:
                for form in ('closed', 'open'):
                    yield ['str', form, argument, value, right]
                for form in ('plain', 'counted'):
                    yield ['texts', form, argument, value, right]


def run_size(case, ctx):
    """Floats have 4 or 8 bytes, sizes aren't negative and are whole bits."""
    kind, bits, size = case
    if kind == 'float':
        right = (size if size is not None else bits / 8. if bits is not None else 4) in (4, 8)
    else:
        right = size is None or size >= 0 and size * 8 == int(size * 8)
    kwargs = {} if size is None else dict(byte_size=size)

    def define():
        return record(dict(f=NUMBERS[kind](where=place(bits), **kwargs)))
    what = "%s of %s bits with byte_size=%s" % (kind, bits, size)
    if not right:
        refused(ctx, define, 1.0 if kind == 'float' else 0, DATA, what)
    elif size is None or bits is None or size * 8 == bits:
        accepted(ctx, define, 1.0 if kind == 'float' else 0, DATA if bits or size else DATA[:4], what, ('pack', 'unpack') if kind == 'float' or bits or size else ('unpack',))
    ctx.state(*case)


def gen_size():
    for kind in ('int', 'uint', 'float'):
        for bits in BITS:
            for size in (None, -8, -4, -1, -.5, .3, 1.1, 2, 3, 4, 4.5, 5, 7, 8, 9, 16):
                yield [kind, bits, size]


# ---------------------------------------------------------------- places and arguments

MACROS = {
    'int': (int_field, {}, 1), 'uint': (uint_field, {}, 1), 'float': (float_field, {}, 1.), 'str': (str_field, {}, 'a'), 'bytes': (bytearray_field, {}, b'ab'),
    'json': (json_field, {}, 11), 'list': (list_field, dict(type=uint8), [1, 2]), 'record': (buffer_field, dict(type=Pair), Pair(x=1, y=2, z=3)),
}
SIZES = {'int': 2, 'uint': 2, 'float': 4, 'str': 2, 'bytes': 2, 'json': 2, 'list': 2, 'record': 3}


def with_others(make):
    text = str_field(where=bytes_ref[20:21], default='a')
    number = uint_field(where=bytes_ref[21:22], default=1)
    others = {'text field': text, 'number field': number}
    return record(dict(f=make(others), t=text, u=number))


def run_place(case, ctx):
    macro, given = case
    field, kwargs, value = MACROS[macro]
    size = SIZES[macro]
    good = {'where', 'where_when_pack', 'where_when_unpack'}
    wrong = [v for v in given if v not in ('missing', 'None', 'good')]
    present = [v not in ('missing', 'None') for v in given]
    right = not wrong and present in ([True, False, False], [False, True, True])

    def define():
        def make(others):
            k = dict(kwargs)
            for name, v in zip(('where', 'where_when_pack', 'where_when_unpack'), given):
                v = bytes_ref[0:size] if v == 'good' else others.get(v, JUNK.get(v))
                if v is not MISSING:
                    k[name] = v
            return field(**k)
        return with_others(make)
    what = "%s" % (case,)
    data = b'11' + bytes(22) if macro == 'json' else b'1' * 24
    if right:
        accepted(ctx, define, value, data, what)
    elif given[0] == 'missing' and wrong:      # one wrong place matters on one side only
        refused(ctx, define, value, data, what, [side for side, v in zip(('pack', 'unpack'), given[1:]) if v in wrong])
    else:
        refused(ctx, define, value, data, what)
    ctx.state(repr(case))
    ctx.trace()


WRONG_PLACES = ['zero', 'one', 'half', 'true', 'false', 'empty', 'text', 'bytes', 'list', 'ones', 'dict', 'object', 'type', 'struct type', 'record',
                'instance', 'factory', 'slice', 'places', 'total', 'text field', 'number field', 'function']


def gen_place():
    for macro in sorted(MACROS):
        for given in itertools.product(('missing', 'None', 'good'), repeat=3):
            yield [macro, list(given)]
        for bad in WRONG_PLACES:
            yield [macro, [bad, 'missing', 'missing']]
            yield [macro, ['missing', bad, 'good']]
            yield [macro, ['missing', 'good', bad]]
            yield [macro, ['missing', bad, bad]]


ARGUMENTS = {
    # argument: (macros, junk that is refused, sides that look at it)
    'unpack_after': (sorted(MACROS), ['zero', 'one', 'text', 'bytes', 'ones', 'object', 'type', 'struct type', 'record', 'instance', 'factory', 'true',
                                      'total', 'places', 'dict+'], ('pack', 'unpack')),
    'set_after_unpack': (sorted(MACROS), ['zero', 'one', 'text', 'bytes', 'list', 'ones', 'dict', 'object', 'true', 'empty', 'slice'], ('unpack',)),
    'type list': (['list'], ['zero', 'one', 'None', 'text', 'list', 'ones', 'dict', 'object', 'type', 'struct type', 'instance', 'factory', 'true',
                             'function', 'number field'], ('pack', 'unpack')),
    'type record': (['record'], ['zero', 'one', 'None', 'text', 'list', 'ones', 'dict', 'object', 'type', 'struct type', 'instance', 'factory', 'true',
                                 'function', 'number field'], ('unpack',)),
    'n': (['list'], ['minus', 'half', 'text', 'empty', 'bytes', 'list', 'ones', 'dict', 'object', 'type', 'text field', 'complex'], ('unpack',)),
    'unpack_selector': (['list', 'record'], ['one', 'text', 'bytes', 'ones', 'object', 'true', 'slice'], ('unpack',)),
    'misspelled': (sorted(MACROS), ['None', 'zero', 'one'], ('definition',)),
}
NAMES = ['wher', 'Where', 'where_when', 'where_unpack', 'size', 'length', 'pack_iff', 'ifpack', 'set_before', 'set_after_pack', 'set_before_unpack',
         'defaults', 'Default', 'name', 'count', 'pack_after', 'offset', 'self', '']


def run_argument(case, ctx):
    argument, macro, bad = case
    field, kwargs, value = MACROS[macro]
    sides = ARGUMENTS.get(argument, ARGUMENTS['misspelled'])[2]

    def define():
        def make(others):
            k = dict(kwargs, where=bytes_ref[0:SIZES[macro]])
            if bad == 'dict+':
                k[argument] = {'a': 1}
            else:
                k[argument.split(' ')[0] if argument in ARGUMENTS else argument[:]] = others.get(bad, JUNK[bad])
            return field(**k)
        return with_others(make)
    data = b'11' + bytes(22) if macro == 'json' else b'1' * 24
    what = "%s" % (case,)
    if 'definition' in sides:
        ctx.rejects(define, what)
    else:
        refused(ctx, define, value, data, what, sides)
    ctx.state(*case)
    ctx.trace()


def gen_argument():
    for argument in sorted(ARGUMENTS):
        macros, bads, sides = ARGUMENTS[argument]
        for macro in macros:
            for bad in bads:
                if argument != 'misspelled':
                    yield [argument, macro, bad]
                else:
                    for name in NAMES:
                        yield [name, macro, bad]


def run_count(case, ctx):
    """A list whose number of elements is a field."""
    form, v = case
    n = int_field(where=bytes_ref[0:1])
    expr = {'field': lambda: n, 'less': lambda: n - 1, 'negated': lambda: -n, 'name': lambda: self_ref.a, 'half': lambda: n / 2,
            'member': lambda: member_func_ref(lambda o: o.a), 'text': lambda: len_ref('ab')}[form]()
    expr = {'text': len_ref(self_ref.t)}.get(form, expr)
    want = {'less': v - 1, 'negated': -v, 'half': 'half'}.get(form, v)
    for shape in ('open', 'closed', 'records'):
        if shape == 'records':
            l = list_field(type=Pair, n=expr, where=bytes_ref[1:])
        else:
            l = list_field(type=uint8, n=expr, where=bytes_ref[1:] if shape == 'open' else bytes_ref[1:3], unpack_after=n)
        if form == 'text':
            continue
        cls = record(dict(a=n, l=l))
        data = bytes(bytearray([v & 255] + [1] * 12))
        what = "n = %s with %d in a list %s" % (form, v, shape)
        if want == 'half' or want < 0:
            ctx.rejects(unpacking(cls, data), what)
        elif shape != 'closed':
            o = cls()
            o.unpack(data)
            ctx.eq(len(o.l), min(want, 4 if shape == 'records' else 12), what)
            ctx.outcome('accepted')
    ctx.state(*case)
    ctx.trace()


def gen_count():
    for form in ('field', 'less', 'negated', 'name', 'half', 'member'):
        for v in (-128, -2, -1, 0, 1, 2, 3, 4):
            yield [form, v]


# ---------------------------------------------------------------- indexes

ITEMS = [-2, -1, 0, 1, 2, 3, 4, None, 'a', 'object', 'list', 'text']
STARTS = [None, -2, -1, 0, 1, 2, 3, 'a', 'object']
STEPS = [None, 1, 2, -1, 0, 'a']
ODD = {'object': object(), 'list': [['x']], 'text': 'text'}
PARENTS = {'2': lambda: bytes_ref[0:2], '1+1': lambda: bytes_ref[0, 2], 'open': lambda: bytes_ref[1:], '1': lambda: bytes_ref[1], 'all': lambda: bytes_ref[:]}
PARENT_BITS = {'2': 16, '1+1': 16, 'open': None, '1': 8, 'all': None}


def good_index(i, top):
    """True, False or None when not specified"""
    if isinstance(i, list):
        start, stop, step = i
        if step not in (None, 1) or isinstance(step, str):
            return False
        for b in (start, stop):
            if isinstance(b, str) or b is not None and b < 0:
                return False
        if start is not None and stop is not None and start > stop:
            return False
        return top is None or (start or 0) <= top and (stop is None or stop <= top)
    if isinstance(i, int) and not isinstance(i, bool):
        return i >= 0 and (top is None or i < top)
    return False


def to_index(i):
    if isinstance(i, list):
        return slice(*[ODD.get(x, x) if isinstance(x, str) else x for x in i])
    return ODD.get(i, i) if isinstance(i, str) else i


def run_index(case, ctx):
    parent, items = case
    top = None if parent == 'bytes' else PARENT_BITS[parent]
    right = [good_index(i, top) for i in items]

    def define():
        base = bytes_ref if parent == 'bytes' else PARENTS[parent]().bits
        index = to_index(items[0]) if len(items) == 1 else tuple(to_index(i) for i in items)
        return record(dict(f=bytearray_field(where=base[index])))
    what = "%s" % (case,)
    if not all(right):
        refused(ctx, define, b'', bytes(bytearray(range(40))), what)
    elif len(items) == 1:
        unpacking(define(), bytes(bytearray(range(40))))()
        ctx.outcome('accepted')
    ctx.state(repr(case))
    ctx.trace()


def gen_index(bound):
    def gen():
        slices = [[a, b, s] for a in STARTS for b in STARTS for s in STEPS]
        wide = [0, 7, 8, 9, 15, 16, 17, 24, 25]
        for parent in ['bytes'] + sorted(PARENTS):
            for i in ITEMS:
                yield [parent, [i]]
            for s in slices:
                yield [parent, [s]]
            if parent != 'bytes':
                for i in wide:
                    yield [parent, [i]]
                for a in wide:
                    for b in wide + [None]:
                        yield [parent, [[a, b, None]]]
        few = [-1, 0, 2, None, 'a', [0, 1, None], [1, 0, None], [-1, 1, None], [0, 1, 2], [None, None, None], [2, 3, 1]]
        for parent in ['bytes', '2', 'open']:
            for n in range(2, bound + 1):
                for items in itertools.product(few, repeat=n):
                    yield [parent, list(items)]
    return gen


def run_computed(case, ctx):
    """Bounds that are computed from fields, for all of the values."""
    parent, form, a, b = case
    x, y = int_field(where=bytes_ref[6:7]), int_field(where=bytes_ref[7:8])
    r = {'fields': lambda v: v, 'numbers': lambda v: num_ref(getattr(self_ref, 'x' if v is x else 'y')), 'sums': lambda v: 3 + v - 3,
         'negated': lambda v: -(-v), 'max': lambda v: num_ref(max_ref(v, v))}[form]
    top = None if parent == 'bytes' else PARENT_BITS[parent]
    for index, i in ((lambda: r(x), a), (lambda: slice(r(x), r(y)), [a, b, None]), (lambda: slice(r(x), None), [a, None, None]),
                     (lambda: slice(None, r(y)), [None, b, None]), (lambda: slice(r(x), 3), [a, 3, None]), (lambda: slice(1, r(y)), [1, b, None]),
                     (lambda: (r(x), slice(r(y), 4)), None)):
        cls = record(dict(f=bytearray_field(where=(bytes_ref if parent == 'bytes' else PARENTS[parent]().bits)[index()], unpack_after=[x, y]), x=x, y=y))
        data = bytes(bytearray([1] * 6 + [a & 255, b & 255]))
        if i is None:
            right = good_index(a, top) and good_index([b, 4, None], top) and not b <= a < 4
        else:
            right = good_index(i, top)
        what = "%s at %s" % (case, i)
        if right:
            unpacking(cls, data)()
            ctx.outcome('accepted')
        else:
            ctx.rejects(unpacking(cls, data), "unpacking " + what)
            if i is None or i[1:2] != [None] if isinstance(i, list) or i is None else True:
                ctx.rejects(lambda: cls(f=b'', x=a, y=b).pack(), "packing " + what)
    ctx.state(*case)
    ctx.trace()


def gen_computed():
    for parent in ['bytes'] + sorted(PARENTS):
        for form in ('fields', 'numbers', 'sums', 'negated', 'max'):
            for a in range(-2, 5):
                for b in range(-2, 5):
                    yield [parent, form, a, b]


# ---------------------------------------------------------------- operands

BINARY = {'+': operator.add, '-': operator.sub, '*': operator.mul, '/': operator.truediv, '//': operator.floordiv, '<': operator.lt, '<=': operator.le,
          '>': operator.gt, '>=': operator.ge, '==': operator.eq, '!=': operator.ne}
OPERANDS = {
    # name: (what to use, its value when it's a number reference or a number, is it a reference)
    'field': (lambda f: f['u'], 6, True), 'sum': (lambda f: f['u'] + 1, 7, True), 'negated': (lambda f: -f['u'], -6, True),
    'num': (lambda f: num_ref(self_ref.u), 6, True), 'compared': (lambda f: f['u'] > 3, True, True), 'max': (lambda f: num_ref(max_ref(f['u'], 9)), 9, True),
    'len': (lambda f: num_ref(len_ref(f['t'])), 2, True), 'float': (lambda f: f['x'], 1.5, True),
    'int': (lambda f: 3, 3, False), 'half': (lambda f: .5, .5, False), 'minus': (lambda f: -2, -2, False), 'bool': (lambda f: True, True, False),
    'text': (lambda f: 'a', None, False), 'bytes': (lambda f: b'a', None, False), 'None': (lambda f: None, None, False), 'list': (lambda f: [1], None, False),
    'record': (lambda f: Pair(x=1, y=2, z=3), None, False), 'type': (lambda f: int, None, False),
    'text field': (lambda f: f['t'], None, True), 'list field': (lambda f: f['l'], None, True), 'name': (lambda f: self_ref.u, None, True),
    'place': (lambda f: bytes_ref[0:1], None, True), 'bits': (lambda f: bytes_ref[0].bits[0:1], None, True), 'member': (lambda f: member_func_ref(len), None, True),
}


def fields():
    return dict(t=str_field(where=bytes_ref[0:2], default='ab'), u=uint_field(where=bytes_ref[2:3], default=6), l=list_field(uint8, where=bytes_ref[3:5], default=[1, 2]),
                x=float_field(where=bytes_ref[8:12], default=1.5))


def run_operands(case, ctx):
    op, left, right = case
    fs = fields()
    (a, av, ar), (b, bv, br) = OPERANDS[left], OPERANDS[right]
    a, b = a(fs), b(fs)
    func = BINARY[op]
    what = "%s %s %s" % (left, op, right)
    if av is not None and bv is not None:
        expr = func(a, b)
        ctx.true(isinstance(expr, Reference), "%s is a reference" % what)
        want = func(av, bv)
        got = []
        cls = record(dict(fs, v=bytearray_field(set_before_pack=self_ref.take(expr), where=bytes_ref[20:], unpack_after=list(fs.values())),
                          take=lambda self, v: got.append(v) or b'z'))
        cls().pack()
        ctx.eq((got, type(got[0])), ([want], type(want)), what)
        if op in ('<', '<=', '>', '>=', '==', '!='):
            ctx.rejects(lambda: bool(expr), "truth of %s" % what)
            ctx.rejects(lambda: 1 if not expr else 0, "negated truth of %s" % what)
        ctx.outcome('accepted')
    else:
        some = av is not None or bv is not None
        if op in ('==', '!=') or ar and br and (some or op == '+' and set((left, right)) & set(('place', 'bits'))):
            ctx.outcome('unspecified')
            return
        ctx.rejects(lambda: func(a, b), what)
    ctx.state(*case)
    ctx.trace()


def gen_operands():
    for left in sorted(OPERANDS):
        for right in sorted(OPERANDS):
            if OPERANDS[left][2] or OPERANDS[right][2]:
                for op in sorted(BINARY):
                    yield [op, left, right]


UNARY = {'-': operator.neg, '--': lambda x: -(-x), '0-': lambda x: -(x + 0)}
NEVER = {'+': operator.pos, '~': operator.invert, 'abs': abs, 'int': int, 'float': float, 'iterate': list, 'len': len, 'in': lambda x: 1 in x, 'index': lambda x: x[0],
         'range': range, '%': lambda x: x % 2, '&': lambda x: x & 1, '|': lambda x: x | 1, '^': lambda x: x ^ 1, '<<': lambda x: x << 1, '>>': lambda x: x >> 1,
         '**': lambda x: x ** 2, 'r%': lambda x: 2 % x, 'r&': lambda x: 1 & x, 'r**': lambda x: 2 ** x, 'round': round, 'divmod': lambda x: divmod(x, 2)}
CHAINED = {'0<x<9': lambda x: 0 < x < 9, '0<=x!=3': lambda x: 0 <= x != 3, 'x==x==x': lambda x: x == x == x, 'min': lambda x: min(x, 3), 'max': lambda x: max(x, x + 1),
           'sorted': lambda x: sorted([x, x + 1]), 'and': lambda x: (x < 3) and (x > 1), 'or': lambda x: (x < 3) or (x > 1), 'not': lambda x: not (x < 3),
           'if': lambda x: 1 if x == 3 else 2, 'all': lambda x: all([x > 1, x < 3]), 'any': lambda x: any([x > 1]), 'in': lambda x: 3 in [x],
           'assert': lambda x: bool(x + 1), 'bool': lambda x: bool(-x), 'not-': lambda x: not -x, 'sum': lambda x: bool(x - x)}


def run_unary(case, ctx):
    op, name = case
    fs = fields()
    make, value, ref = OPERANDS[name]
    x = make(fs)
    if op in UNARY:
        if value is None:
            ctx.rejects(lambda: UNARY[op](x), "%s %s" % (op, name))
        else:
            expr = UNARY[op](x)
            got = []
            cls = record(dict(fs, v=bytearray_field(set_before_pack=self_ref.take(expr), where=bytes_ref[20:], unpack_after=list(fs.values())),
                              take=lambda self, v: got.append(v) or b'z'))
            cls().pack()
            ctx.eq(got, [UNARY[op](value)], "%s %s" % (op, name))
            ctx.outcome('accepted')
    elif op in NEVER:
        ctx.rejects(lambda: NEVER[op](x), "%s %s" % (op, name))
    elif value is not None:
        ctx.rejects(lambda: CHAINED[op](x), "%s of %s" % (op, name))
    ctx.state(*case)
    ctx.trace()


def gen_unary():
    for name in sorted(OPERANDS):
        if OPERANDS[name][2]:
            for op in sorted(UNARY) + sorted(NEVER) + sorted(CHAINED):
                yield [op, name]


# ---------------------------------------------------------------- structs

class Inner(Struct):
    _fields_ = [UBInt8('i')]


class Open(Struct):
    _fields_ = [VarSizeString('s', UBInt8)]


def two(name, maker, *args):
    return lambda n: Field(n, maker(*args))


CONTENT = {
    # name: (field, is its size fixed, is it made of bits)
    'number': (UBInt8, True), 'word': (ULInt16, True), 'float': (BFloat32, True), 'padded': (lambda n: PaddedString(n, 2), True),
    'buffer': (lambda n: FixedSizeBuffer(n, 2), True), 'text': (lambda n: VarSizeString(n, UBInt8), False), 'bytes': (lambda n: VarSizeBuffer(n, UBInt8), False),
    'array': (lambda n: FixedSizeArray(n, 2, UBInt8), True), 'texts': (lambda n: FixedSizeArray(n, 2, VarSizeStringMarshal(UBInt8)), False),
    'counted': (lambda n: VarSizeArray(n, UBInt8, UBInt8), False), 'summed': (lambda n: SumSizeArray(n, UBInt8, UBInt8), False),
    'struct': (lambda n: Field(n, Inner), True), 'open struct': (lambda n: Field(n, Open), False), 'const': (lambda n: ConstField(n, 5, UBInt8), True),
    'map': (lambda n: Field(n, FixedSizeMappingMarshal({'x': 1}, UBInt8)), True),
    'optional': (lambda n: OptionalField(n, UBInt8, lambda o: True), False), 'padding': (lambda n: BytePadding(2), True),
    'selected': (lambda n: Field(n, StructSelector(UBInt8, {1: Inner, 2: Open})), False),
    'function': (lambda n: SelectStructByFunc(n, lambda *a: Inner), False), 'pointer': (lambda n: Field(n, PaddedStringMarshal(2)), True),
    'bit': (lambda n: BitField(n, 8), True), 'flag': (lambda n: BitFlag(n), True), 'bit padding': (lambda n: BitPadding(8), True),
    'slice': (lambda n: BitField(n, slice(0, 8)), True), 'slices': (lambda n: BitField(n, Bits[4:8, 0:4]), True),
}
BIT_KINDS = ('bit', 'bit padding')
SLICE_KINDS = ('slice', 'slices')


def struct_of(*fs):
    return type(Struct)('S', (Struct,), dict(_fields_=list(fs), __module__='case'))


def run_group(case, ctx):
    container, first, second = case
    make = {'bits': BitFields, 'lazy': Lazy}[container]
    kinds = [k for k in (first, second) if k]

    def define():
        return struct_of(UBInt8('p'), make(*[CONTENT[k][0]('f%d' % i) for i, k in enumerate(kinds)]))
    what = "%s" % (case,)
    if container == 'lazy':
        if any(k in BIT_KINDS + SLICE_KINDS + ('flag',) for k in kinds):
            ctx.outcome('unspecified')
            return
        right = all(CONTENT[k][1] for k in kinds)
    elif all(k in SLICE_KINDS for k in kinds):
        right = len(kinds) == 1       # two would share bits
        if not right:
            ctx.outcome('unspecified')
            return
    else:
        right = all(k in BIT_KINDS for k in kinds)
    if right:
        cls = define()
        data = b'\x01' * 12
        size = cls.min_max_sizeof()
        ctx.eq(size.min, size.max, "sizes of %s" % what)
        ctx.outcome('accepted')
    else:
        try:
            cls = define()
        except Exception:
            ctx.outcome('refused')
        else:
            ctx.rejects(lambda: [repr(cls.create_from_string(b'\1' * 40))] + [getattr(cls.create_from_string(b'\1' * 40), 'f%d' % i) for i in range(len(kinds))],
                        "parsing %s" % what)
            ctx.rejects(lambda: cls.write_to_string(cls(p=1, f0=1, f1=1)), "writing %s" % what)
            ctx.outcome('refused in use')
    ctx.state(repr(case))
    ctx.trace()


def gen_group():
    for container in ('bits', 'lazy'):
        for first in sorted(CONTENT):
            for second in [None] + sorted(CONTENT):
                yield [container, first, second]


# (equal keys and values that are falsy, too)
MAP_KEYS = [['x', 'y', 'z'], [0, 1, 2], ['', None, ()], [1, 0, 255]]


def run_build(case, ctx):
    """Parameters of the building blocks, with the ones that are right."""
    kind, a, b = case[:3]
    what = "%s" % (case,)
    obj = dict((k, v) for k, v in JUNK.items())
    if kind == 'minmax':
        f, right = (lambda: MinMax(a, b)), a <= b
    elif kind == 'minmax tuple':
        f, right = (lambda: MinMax((a, b))), a <= b
    elif kind == 'minmax items':
        f, right = (lambda: MinMax(tuple(range(a)))), a == 2
    elif kind == 'padding char':
        f, right = (lambda: BytePadding(a, b.encode())), len(b) == 1 and a >= 0
    elif kind == 'padding used':
        def f():
            cls = struct_of(BytePadding(a), UBInt8('x'))
            return cls(x=1).to_bytes(), cls.create_from_string(b'\0' * max(a, 0) + b'\x01').x
        right = a >= 0
    elif kind == 'padded':
        def f():
            cls = struct_of(PaddedString('s', a, b'p' * b), UBInt8('x'))
            return cls(s=b'', x=1).to_bytes()
        right = a >= 0 and (b > 0 or a == 0)
        if b > 1:
            right = None
    elif kind == 'bits':
        def f():
            cls = struct_of(BitFields(BitField('a', a), BitField('b', b)))
            cls.create_from_string(b'\0' * 10)
            return cls(a=0, b=0).to_bytes()
        right = (a + b) % 8 == 0 if min(a, b) >= 0 else None
    elif kind == 'slice':
        def f():
            cls = struct_of(BitFields(BitField('a', slice(a, b)), BitField('b', slice(max(b, 0), 16))))
            cls.create_from_string(b'\0' * 10)
            return cls(a=0, b=0).to_bytes()
        right = None if b > 15 or a >= b else a >= 0
    elif kind == 'const':
        f, right = (lambda: ConstField('c', obj[a])), False
    elif kind == 'selected':
        f, right = (lambda: StructSelector(UBInt8, {1: obj[a]})), False
    elif kind == 'selected second':
        f, right = (lambda: StructSelector(UBInt8, {1: Inner, 2: obj[a]})), False
    elif kind == 'mapped':
        f, right = (lambda: FixedSizeMappingMarshal({'x': 1}, CONTENT[a][0]('m').marshal)), CONTENT[a][1]
    elif kind == 'map':
        # two keys for a value: one of them could never be read back
        values = [v for v in (a, b, case[3]) if v is not None]
        keys = MAP_KEYS[case[4]][:len(values)]
        right = len(set(values)) == len(values)
        def f():
            marshal = FixedSizeMappingMarshal(dict(zip(keys, values)), UBInt8)
            for k, v in zip(keys, values) if right else ():
                ctx.eq(marshal.write_to_string(k), bytes(bytearray([v])), 'value of a key')
                ctx.eq(marshal.create_from_string(bytes(bytearray([v]))), k, 'key of a value')
    elif kind == 'array default':
        f, right = (lambda: FixedSizeArray('a', a, UBInt8, default=[1] * b)), a == b
    elif kind == 'buffer default':
        f, right = (lambda: FixedSizeBuffer('a', a, default=b'1' * b)), a == b
    elif kind == 'padded default':
        f, right = (lambda: PaddedString('a', a, default=b'1' * b)), a >= b
    elif kind == 'array size':
        def f():
            cls = struct_of(FixedSizeArray('a', a, UBInt8))
            cls.create_from_string(b'\1' * 10)
            return cls(a=[1] * max(a, 0)).to_bytes()
        right = a >= 0
    elif kind == 'fields':
        def f():
            cls = type(Struct)('S', (Struct,), dict(_fields_=obj[a], __module__='case'))
            return cls(), cls().to_bytes()
        right = a in ('list', 'dict', 'empty') or None if a not in ('missing', 'None', 'zero', 'one', 'half', 'ones', 'object', 'true', 'struct type') else False
        if right is not False:
            right = None
    elif kind == 'field':
        f, right = (lambda: struct_of(UBInt8('p'), obj[a])), False
    elif kind == 'marshal':
        def f():
            cls = struct_of(UBInt8('p'), Field('f', obj[a]))
            return cls.create_from_string(b'\1' * 30)
        right = False
    else:
        assert False, kind
    if right is None:
        ctx.outcome('unspecified')
    elif right:
        f()
        ctx.outcome('accepted')
    else:
        ctx.rejects(f, what)
    ctx.step()
    ctx.state(*case)


def gen_build():
    for kind in ('minmax', 'minmax tuple'):
        for a in range(-1, 4):
            for b in range(-1, 4):
                yield [kind, a, b]
    for a in range(5):
        yield ['minmax items', a, 0]
    for a in (-2, -1, 0, 1, 2):
        for b in ('', 'a', 'ab', 'abc'):
            yield ['padding char', a, b]
        yield ['padding used', a, 0]
        yield ['array size', a, 0]
        for b in (0, 1, 2):
            yield ['padded', a, b]
    for a in range(-9, 18):
        for b in range(-9, 18):
            yield ['bits', a, b]
    for a in range(-2, 17):
        for b in range(-2, 17):
            yield ['slice', a, b]
    for a in sorted(JUNK):
        if a not in ('struct type', 'missing'):
            yield ['const', a, 0]
            yield ['selected', a, 0]
            yield ['selected second', a, 0]
            yield ['field', a, 0]
            if a != 'record':
                yield ['marshal', a, 0]
            yield ['fields', a, 0]
    for a in sorted(CONTENT):
        if a not in ('struct', 'open struct', 'padding', 'const', 'optional', 'bit', 'flag', 'bit padding', 'slice', 'slices'):
            yield ['mapped', a, 0]
    for a in (None, 0, 1, 255):
        for b in (None, 0, 1, 255):
            for c in (None, 0, 1, 255):
                for keys in range(len(MAP_KEYS)):
                    yield ['map', a, b, c, keys]
    for kind in ('array default', 'buffer default', 'padded default'):
        for a in range(4):
            for b in range(5):
                yield [kind, a, b]


# ---------------------------------------------------------------- uses

VALUES = {'None': None, 'text': 'a', 'bytes': b'a', 'byte array': bytearray(b'a'), 'list': [1], 'half': 1.5, 'object': JUNK['object'], 'int': 5, 'huge': 1 << 80,
          'minus': -1, 'texts': ['a'], 'struct': Inner(i=5), 'record': Pair(x=1, y=2, z=3), 'type': int, 'nan': float('nan'), 'nothing': [], 'many': [1, 2, 3],
          'pairs': [Pair(x=1, y=2, z=3)], 'complex': 1j,
          'set': set([1]), 'keyed': {(1, 2): 3}, 'keyed bytes': {b'a': 1}, 'keyed in': [{'a': {JUNK['object']: 1}}], 'object in': {'a': [1, JUNK['object']]},
          'bytes in': [[b'a']], 'complex in': {'a': 1j}, 'names': 'x'}
STRUCT_USES = {
    # kind: (field, values that are refused)
    'number': (UBInt8, 'None text bytes list half object huge minus struct record type nothing nan complex'),
    'signed': (SLInt16, 'None text bytes list half object huge struct record type nothing nan complex'),
    'float': (BFloat32, 'None text bytes list object struct record type nothing complex'),
    'padded': (lambda n: PaddedString(n, 2), 'None text list half object int huge struct record type nothing many'),
    'exact': (lambda n: PaddedString(n, 2, b'\0', PADDING_DIRECTION_NONE), 'None text bytes list half object int huge struct record type nothing'),
    'buffer': (lambda n: FixedSizeBuffer(n, 2), 'None text bytes list half object int huge struct record type nothing many'),
    'text': (lambda n: VarSizeString(n, UBInt8), 'None text list half object int huge struct record type nothing many'),
    'bytes': (lambda n: VarSizeBuffer(n, UBInt8), 'None text half object int huge struct record type'),
    'array': (lambda n: FixedSizeArray(n, 2, UBInt8), 'None text bytes list half object int huge struct record type nothing many texts'),
    'counted': (lambda n: VarSizeArray(n, UBInt8, UBInt8), 'None text half object int huge struct record type texts'),
    'summed': (lambda n: SumSizeArray(n, UBInt8, UBInt8), 'None text half object int huge struct record type texts'),
    'bit': (lambda n: BitFields(BitField(n, 8)), 'None text bytes list half object huge minus struct record type nothing nan complex'),
    'slice': (lambda n: BitFields(BitField(n, slice(0, 8))), 'None text bytes list half object huge minus struct record type nothing nan complex'),
    'struct': (lambda n: Field(n, Inner), 'None text bytes list half object int huge minus record type nothing'),
    'map': (lambda n: Field(n, FixedSizeMappingMarshal({'x': 1}, UBInt8)), 'None text bytes half object int huge minus struct record type'),
    'selected': (lambda n: Field(n, StructSelector(UBInt8, {1: Inner})), 'None text bytes list half object int huge minus record type nothing'),
    'function': (lambda n: SelectStructByFunc(n, lambda *a: Inner), 'None text bytes list half object int huge minus record type nothing'),
    'adapter': (lambda n: Field(n, buffer_to_struct_adapter(Pair)), 'None text bytes list half object int huge minus type nothing'),
    'lazy': (lambda n: Lazy(UBInt8(n)), 'None text bytes list half object huge minus struct record type nothing nan complex'),
    'optional': (lambda n: OptionalField(n, UBInt8, lambda o: True), 'text bytes list half object huge minus struct record type nothing nan complex'),
}
RECORD_USES = {
    'int': (lambda **k: int_field(where=bytes_ref[0:4], **k), 'None text bytes list half object huge struct record type nothing nan complex'),
    'int3': (lambda **k: int_field(where=bytes_ref[0:3], **k), 'None text list half object huge struct record type many nan complex'),
    'bits': (lambda **k: uint_field(where=bytes_ref[0].bits[0:5], **k), 'None text list half object huge struct record type many nan complex'),
    'float': (lambda **k: float_field(where=bytes_ref[0:4], **k), 'None text bytes list object struct record type nothing complex'),
    'bytes': (lambda **k: bytearray_field(where=bytes_ref[0:2], **k), 'None text half object struct record type huge minus texts complex'),
    'json': (lambda **k: json_field(where=bytes_ref[0:16], **k), 'bytes|object|struct|record|type|complex|byte array|set|keyed|keyed bytes|keyed in|object in|bytes in|complex in'),
    'record': (lambda **k: buffer_field(Pair, where=bytes_ref[0:3], **k), 'None text bytes list half object int huge minus struct type nothing'),
    'list': (lambda **k: list_field(uint8, where=bytes_ref[0:2], **k), 'None text half object int huge minus struct record type texts complex'),
    'records': (lambda **k: list_field(Pair, where=bytes_ref[0:3], **k), 'None text bytes list half object int huge minus struct record type texts many complex'),
}


def run_value(case, ctx):
    side, kind, bad, form = case
    v = VALUES[bad]
    what = "%s" % (case,)
    if side == 'struct':
        make = STRUCT_USES[kind][0]
        if form == 'alone':
            cls = struct_of(make('f'))
            ctx.rejects(lambda: cls(f=v).to_bytes(), what)
            ctx.rejects(lambda: cls.write_to_string(cls(f=v)), what)
        elif form == 'assigned':
            cls = struct_of(UBInt8('p'), make('f'), UBInt8('q'))
            def f():
                o = cls(p=1, q=2)
                o.f = v
                return o.to_bytes()
            ctx.rejects(f, what)
        else:
            cls = struct_of(UBInt8('p'), Field('s', struct_of(make('f'))))
            inner = cls._container_.fields[1].marshal
            ctx.rejects(lambda: cls(p=1, s=inner(f=v)).to_bytes(), what)
    else:
        make = RECORD_USES[kind][0]
        if form == 'default':
            ctx.rejects(lambda: record(dict(f=make(default=v)))().pack(), what)
        elif form == 'assigned':
            o = record(dict(f=make(), z=uint_field(where=bytes_ref[20], default=1)))()
            o.f = v
            ctx.rejects(o.pack, what)
        elif form == 'computed':
            ctx.rejects(lambda: record(dict(f=make(set_before_pack=lambda o: v)))().pack(), what)
        else:
            ctx.rejects(lambda: record(dict(f=make()))(f=v).pack(), what)
    ctx.state(*case)
    ctx.trace()


def gen_value():
    for side, table, forms in (('struct', STRUCT_USES, ('alone', 'assigned', 'nested')), ('record', RECORD_USES, ('alone', 'assigned', 'default', 'computed'))):
        for kind in sorted(table):
            for bad in table[kind][1].split('|' if '|' in table[kind][1] else None):
                for form in forms:
                    yield [side, kind, bad, form]


def run_pointer(case, ctx):
    """A length or a key that is taken from a field that is not there, or was not parsed yet."""
    where, name = case
    pointer = ReadPointer(name)
    uses = {'text': lambda: VarSizeString('v', pointer), 'buffer': lambda: VarSizeBuffer('v', pointer), 'array': lambda: VarSizeArray('v', pointer, UBInt8),
            'summed': lambda: SumSizeArray('v', pointer, UBInt8), 'key': lambda: Field('v', StructSelector(pointer, {1: Inner})),
            'value': lambda: Field('v', pointer)}
    kind, inside = where
    field = uses[kind]()
    data = b'\x01' * 12
    if inside == 'none':
        ctx.rejects(lambda: field.marshal.create_from_string(data), "%s outside of a struct" % (case,))
    else:
        fields = {'alone': [field], 'after': [UBInt8('a'), field], 'inner': [UBInt8('m'), Field('s', struct_of(UBInt8('a'), field))],
                  'lazy': [UBInt8('a'), field]}[inside]
        cls = struct_of(*fields)
        ctx.rejects(lambda: cls.create_from_string(data), "%s" % (case,))
        ctx.rejects(lambda: cls.create_from_stream(io.BytesIO(data)), "%s" % (case,))
    ctx.state(*map(repr, case))


def gen_pointer():
    for kind in ('text', 'buffer', 'array', 'summed', 'key', 'value'):
        for inside in ('none', 'alone', 'after', 'inner'):
            for name in ('missing', 'n', 'A', ''):
                yield [[kind, inside], name]


def run_input(case, ctx):
    """What isn't bytes can't be parsed."""
    what, bad = case
    v = VALUES[bad]
    makers = {
        'struct': lambda: struct_of(UBInt8('a')).create_from_string, 'lazy': lambda: struct_of(Lazy(UBInt8('a'))).create_from_string,
        'empty': lambda: struct_of().create_from_string, 'number': lambda: UBInt8.create_from_string, 'marshal': lambda: UBInt8.marshal.create_from_string,
        'padded': lambda: PaddedStringMarshal(1).create_from_string, 'text': lambda: VarSizeStringMarshal(UBInt8).create_from_string,
        'array': lambda: FixedSizeArrayMarshal(1, UBInt8).create_from_string, 'map': lambda: FixedSizeMappingMarshal({'x': 97}, UBInt8).create_from_string,
        'selected': lambda: StructSelector(UBInt8, {97: Inner}).create_from_string, 'adapter': lambda: buffer_to_struct_adapter(Pair).create_from_string,
        'record': lambda: Pair().unpack, 'open record': lambda: record(dict(f=bytearray_field(where=bytes_ref[0:])))().unpack,
    }
    ctx.rejects(lambda: makers[what]()(v), "%s" % (case,))
    if bad == 'text' and what not in ('record', 'open record'):
        ctx.rejects(lambda: makers[what]()('a' * 300), "%s" % (case,))
    ctx.state(*case)


def gen_input():
    for what in ('struct', 'lazy', 'empty', 'number', 'marshal', 'padded', 'text', 'array', 'map', 'selected', 'adapter', 'record', 'open record'):
        for bad in ('None', 'text', 'half', 'object', 'int', 'struct', 'record', 'type', 'texts'):
            yield [what, bad]


def run_text(case, ctx):
    """A struct isn't text."""
    o = struct_of(CONTENT[case][0]('f'))() if case not in ('bit', 'flag', 'bit padding', 'slice', 'slices') else struct_of(BitFields(BitField('f', 8)))()
    ctx.rejects(lambda: str(o), "str() of a struct with %s" % case)
    ctx.state(case)


def spaces(tier):
    quick = tier == 'quick'
    return [
        Space('choices', gen_choice, run_choice, 'arguments with a fixed set of choices', ['accepted', 'refused in use']),
        Space('sizes', gen_size, run_size, 'sizes of numbers', ['accepted', 'refused in use']),
        Space('places', gen_place, run_place, 'arguments that give the place', ['accepted', 'refused', 'refused in use']),
        Space('arguments', gen_argument, run_argument, 'other arguments of fields', ['refused', 'rejected']),
        Space('counts', gen_count, run_count, 'numbers of elements', ['accepted', 'rejected']),
        Space('indexes', gen_index(3 if quick else 4), run_index, 'indexes of bytes and bits', ['accepted', 'refused']),
        Space('computed', gen_computed, run_computed, 'computed indexes', ['accepted', 'rejected']),
        Space('operands', gen_operands, run_operands, 'operators on references', ['accepted', 'rejected', 'unspecified']),
        Space('unary', gen_unary, run_unary, 'other uses of references', ['accepted', 'rejected']),
        Space('groups', gen_group, run_group, 'groups of struct fields', ['accepted', 'refused']),
        Space('build', gen_build, run_build, 'parameters of struct fields', ['accepted', 'rejected']),
        Space('values', gen_value, run_value, 'values that a field can not hold', ['rejected']),
        Space('pointers', gen_pointer, run_pointer, 'values of fields that are not there', ['rejected']),
        Space('inputs', gen_input, run_input, 'inputs that are not bytes', ['rejected']),
        Space('text', lambda: iter(sorted(CONTENT)), run_text, 'structs as text', ['rejected']),
    ]
