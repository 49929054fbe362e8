"""C19: structs with lazily parsed fields behave as the same structs without laziness."""
import io
import itertools
from mc.core import Space
from mc import sfamily
from mc.sfamily import StructItem, Rec, construct
from infi.instruct import *
from infi.instruct.base import Marshal, FixedSizer, EMPTY_CONTEXT, WritableContext
from infi.instruct.buffer import Buffer
from infi.instruct.struct import Struct, Field
from array import array

ID = 'C19'
RULE = ('a case is one struct with lazy groups, one way to get an instance and the first operation; all histories of reading, assigning, '
        'serializing, sizing, printing and re-parsing to a depth follow, in lockstep with the same struct without laziness')
ASSUMPTIONS = ["data that can't be parsed is reported when it is accessed, not when it is read",
               'values that are not in the data (read from other fields while parsing) are not part of lazy groups']


def names_of(cls):
    if cls not in _names:
        if len(_names) > 200:
            _names.clear()
        _names[cls] = []
        for field in walk(cls._container_):
            if field not in _names[cls]:
                _names[cls].append(field)
    return _names[cls]


_names = {}


def walk(container):
    for f in container.fields:
        if hasattr(f, 'fields'):
            for x in walk(f):
                yield x
        elif hasattr(f, 'name'):
            yield f.name


def norm(v):
    if isinstance(v, Struct):
        return (type(v).__name__, [(n, norm(getattr(v, n, 'unset'))) for n in names_of(type(v))])
    if isinstance(v, Buffer):
        return (type(v).__name__, sorted((k, repr(x)) for k, x in vars(v).items()))
    if isinstance(v, list):
        return [norm(x) for x in v]
    return (type(v).__name__, v)


def eager(expr):
    """The same without laziness."""
    if isinstance(expr, list):
        return ['eager' if x == 'lazy' and k == 0 else eager(x) for k, x in enumerate(expr)]
    return expr


class Counting(FixedSizer, Marshal):
    """Counts how often a value is parsed."""
    size = 2
    reads = 0

    def create_from_stream(self, stream, context=EMPTY_CONTEXT, *args, **kwargs):
        self.reads += 1
        return UBInt16.create_from_stream(stream, context)

    def write_to_stream(self, obj, stream, context=EMPTY_CONTEXT):
        UBInt16.write_to_stream(obj, stream, context)


class Twins(object):
    def __init__(self, items, how):
        self.sides = []
        for form in (items, eager(items)):
            s = StructItem(form, name='S')
            if how == 'derived':
                base = type(Struct)('Base', (Struct,), dict(_fields_=s.all_fields('f')[:-1] or s.all_fields('f'), __module__='case'))
                s.cls = type(Struct)('S', (base,), dict(_fields_=base._fields_ + s.all_fields('f')[len(base._fields_):], __module__='case'))
            elif how == 'init':
                s.cls = type(Struct)('S', (Struct,), dict(_fields_=s.all_fields('f'), __module__='case', __init__=touching_init))
            elif how == 'context':
                s.define(_context_={'int_repr_format': '%#x'})
            else:
                s.define()
            self.sides.append(s)
        self.specs = [s.values() for s in self.sides]
        self.names = sorted(self.specs[0][0].values)
        self.all_names = names_of(self.sides[0].cls)
        self.wire = [self.sides[0].encode(v) for v in self.specs[0]]


def touching_init(self, *args, **kwargs):
    """A constructor that reads and assigns."""
    for n in names_of(type(self)):
        if getattr(self, n) is not None:
            setattr(self, n, getattr(self, n))


STARTS = ('kwargs', 'empty', 'some', 'string', 'stream', 'array', 'context', 'refilled')


def start(twins, side, how):
    s, spec = twins.sides[side], twins.specs[side]
    if how == 'kwargs':
        return construct(spec[0])
    if how == 'empty':
        return s.cls()
    if how == 'some':
        return s.cls(**dict((n, construct(spec[-1].values[n])) for n in twins.names[1::2]))
    if how == 'string':
        return s.cls.create_from_string(twins.wire[0])
    if how == 'stream':
        stream = io.BytesIO(b'<' + twins.wire[-1] + b'\x99\x98')
        stream.seek(1)
        o = s.cls.create_from_stream(stream)
        if stream.tell() != 1 + len(twins.wire[-1]):
            raise AssertionError("parsing ended at %d" % stream.tell())
        stream.getbuffer()[:] = b'\xee' * len(stream.getvalue())
        return o
    if how == 'array':
        data = array('B', twins.wire[-1])
        o = s.cls.create_from_string(data)
        for k in range(len(data)):
            data[k] = 0xdd
        return o
    if how == 'context':
        context = WritableContext({'x': 1})
        o = s.cls.create_from_string(twins.wire[0], context)
        context.put('struct', None)
        return o
    o = s.cls.create_from_string(twins.wire[0])      # read over a constructed instance's values
    for n in twins.all_names:
        getattr(o, n)
    return s.cls.create_from_string(o.to_bytes())


def ops(twins):
    out = [['bytes'], ['size'], ['repr'], ['reparse'], ['other'], ['nested']]
    for n in twins.all_names:
        out.append(['get', n])
    for n in twins.names:
        for k in range(min(2, len(twins.specs[0]))):
            out.append(['set', n, k])
    for n in twins.all_names:
        out.append(['bad', n])
    return out


def apply(twins, side, box, op):
    s, spec, o = twins.sides[side], twins.specs[side], box[0]
    try:
        if op[0] == 'bytes':
            return o.to_bytes()
        if op[0] == 'size':
            return s.cls.sizeof(o), Struct.sizeof(o)
        if op[0] == 'repr':
            repr(o)
            return None
        if op[0] == 'reparse':
            box[0] = s.cls.create_from_string(o.to_bytes())
            return 'parsed'
        if op[0] == 'other':
            other = s.cls.create_from_string(twins.wire[-1])
            box.append(other)       # compared at the end
            return getattr(other, twins.all_names[-1], None) is None
        if op[0] == 'get':
            return norm(getattr(o, op[1], 'unset'))
        if op[0] == 'set':
            setattr(o, op[1], construct(spec[-1 - op[2]].values[op[1]]))
            return None
        if op[0] == 'bad':
            if isinstance(twins.specs[0][0].expected.get(op[1]), int):
                setattr(o, op[1], 1 << 80)
            return None
        for n in twins.names:         # changes inside a value
            v = getattr(o, n, None)
            if isinstance(v, Struct):
                inner = names_of(type(v))[0]
                setattr(v, inner, getattr(v, inner))
                setattr(v, inner, 1)
            elif isinstance(v, list) and v:
                v.reverse()
                v[0] = v[-1]
        return None
    except Exception as e:
        return 'raises'


def compare(ctx, twins, history, boxes):
    lazy, plain = boxes
    ctx.eq(len(lazy), len(plain), "instances")
    for k, (a, b) in enumerate(zip(lazy, plain)):
        for f, what in ((lambda o, s: norm(o), 'values'), (lambda o, s: attempt(o.to_bytes), 'bytes'), (lambda o, s: attempt(lambda: s.cls.sizeof(o)), 'size'),
                        (lambda o, s: repr(o), 'repr'), (lambda o, s: norm(o), 'values')):
            x, y = f(a, twins.sides[0]), f(b, twins.sides[1])
            if x != y and not (what == 'size' and y == 'raises'):     # values that can't be written may have a size or not
                ctx.fail("%s of instance %d after %s: lazy %r, eager %r", what, k, history, x, y)


def attempt(f):
    try:
        return f()
    except Exception:
        return 'raises'


def run(case, ctx):
    items, how, begin, first, depth = case
    twins = Twins(items, how)
    everything = ops(twins)

    def explore(history, left, which=None):
        for op in everything if which is None else everything[which::PARTS]:
            boxes = []
            results = []
            for side in (0, 1):
                box = [start(twins, side, begin)]
                for h in history:
                    apply(twins, side, box, h)
                results.append(apply(twins, side, box, op))
                boxes.append(box)
            if results[0] != results[1] and not (op == ['size'] and results[1] == 'raises'):
                ctx.fail("%s %s: %s after %s: lazy %r, eager %r", items, begin, op, history, results[0], results[1])
            compare(ctx, twins, history + [op], boxes)
            ctx.step()
            ctx.outcome('raises' if results[0] == 'raises' else 'same')
            ctx.state(repr(items), how, begin, repr(norm(boxes[1][0])))
            if left > 1:
                explore(history + [op], left - 1)
    if first is None:
        explore([], depth)
    else:
        explore([everything[first[0]]], depth - 1, first[1])
    ctx.trace()


GROUPS = [['lazy', ['u8']], ['lazy', ['u8', 'sle32']], ['lazy', ['pad4', 'fbuf2', 'map']], ['lazy', [['bits', [3, 5]], 'u8']],
          ['lazy', [['posbits', 0], ['pad', 3]]], ['lazy', [['const', 'be16'], 'u8']], ['lazy', [['farr', 2, 'be16'], 'u8']],
          ['lazy', [['struct', ['u8', ['bits', [4, 4]]]], 'be16']], ['lazy', [['farr', 2, ['struct', ['u8', 'pad4']]]]],
          ['lazy', [['lazy', ['u8', 'be16']], 'u8']], ['lazy', ['u8', ['lazy', [['bits', [1, -2, 5]]]]]], ['lazy', ['rec', 'u8']] if False else ['lazy', ['f64', ['pad', 1]]],
          ['lazy', [['struct', [['lazy', ['u8', 'be16']], 'u8']]]], ['lazy', [['const', ['struct', ['u8', 'be16']]], ['const', 'map']]]]


def shapes():
    for g in GROUPS:
        yield [g]
    for g in GROUPS[:10]:
        yield ['u8', g, 'vstr']
    for g, h in ((0, 3), (1, 9), (5, 5), (7, 2), (3, 4)):
        yield [GROUPS[g], 'u8', GROUPS[h]]
    yield [['varr', ['struct', [GROUPS[1], 'ptr']]], GROUPS[0]]
    yield [['opt', ['struct', [GROUPS[3]]]], GROUPS[1]]
    yield [['sel', [GROUPS[1]], [GROUPS[3]]], 'u8']


PARTS = 6


def gen(depth, hows, starts, most=None):
    def g():
        for items in itertools.islice(shapes(), most):
            for how in hows:
                n = len(ops(Twins(items, how)))
                for begin in starts:
                    if how == 'init' and begin in ('some', 'empty') or how == 'derived' and begin == 'array':
                        continue
                    yield [items, how, begin, None, min(depth, 2)]
                    if depth > 2:
                        for first in itertools.product(range(n), range(PARTS)):
                            yield [items, how, begin, first, depth]
    return g


# ---------------------------------------------------------------- parsed once

def run_once(case, ctx):
    order, nested = case
    marshals = [Counting() for k in range(3)]
    group = Lazy(*[Field('c%d' % k, m) for k, m in enumerate(marshals)]) if not nested else \
        Lazy(Field('c0', marshals[0]), Lazy(Field('c1', marshals[1])), Field('c2', marshals[2]))
    cls = type(Struct)('S', (Struct,), dict(_fields_=[UBInt8('a'), group, UBInt8('b')], __module__='case'))
    data = b'\x01\x00\x10\x00\x20\x00\x30\x02'
    objs = [cls.create_from_string(data) for k in range(2)]
    total = 0
    for k, op in enumerate(order):
        o = objs[k % 2]
        if op < 3:
            ctx.eq(getattr(o, 'c%d' % op), 0x10 * (op + 1), "field %d" % op)
        elif op == 3:
            ctx.eq(o.to_bytes(), data, "bytes")
        elif op == 4:
            repr(o)
            cls.sizeof(o)
        ctx.true(all(m.reads <= 2 for m in marshals), "values of two instances were parsed %s times" % [m.reads for m in marshals])
        ctx.step()
    ctx.outcome('ok')
    ctx.state(order, nested)
    ctx.trace()


# ---------------------------------------------------------------- data that can't be parsed

def run_invalid(case, ctx):
    """Wherever a lazy group has invalid content, all accesses to it fail, and go on failing."""
    kind, order = case
    bad = {'map': (MappingField('x', UBInt8, {'red': 1}), b'\x02'), 'const': (ConstField('x', 7, UBInt8), b'\x02'),
           'const struct': (ConstField('x', CONST_STRUCT), b'\x01\x03'), 'array': (FixedSizeArray('x', 2, MARK), b'\x01\x02')}[kind]
    cls = type(Struct)('S', (Struct,), dict(_fields_=[Lazy(UBInt8('p', 9), bad[0], UBInt8('q', 9))], __module__='case'))
    try:
        o = cls.create_from_string(b'\x05' + bad[1] + b'\x06')
    except Exception:
        ctx.outcome('at once')
        return
    for op in order:
        f = {'p': lambda: o.p, 'x': lambda: o.x, 'q': lambda: o.q, 'bytes': o.to_bytes}[op]
        ctx.rejects(f, "%s of %s after %s" % (op, kind, order))
        repr(o)
        ctx.step()
    ctx.state(*case)
    ctx.trace()


# ---------------------------------------------------------------- the same definitions in several structs

def run_shared(case, ctx):
    """Fields and groups of them may be used in the definitions of several structs, lazy or not."""
    forms, order = case
    bits = BitFields(BitField('lo', 4), BitField('hi', 4))
    parts = [UBInt8('p'), bits, FixedSizeString('s', 2), FixedSizeArray('r', 2, UBInt8)]
    make = {'lazy': lambda: [Lazy(*parts)], 'plain': lambda: list(parts), 'apart': lambda: [Lazy(*parts[:1]), Lazy(*parts[1:])],
            'inner': lambda: [Lazy(Lazy(*parts))], 'half': lambda: [parts[0], Lazy(*parts[1:])]}
    classes = [type(Struct)('S%d' % k, (Struct,), dict(_fields_=make[form](), __module__='case')) for k, form in enumerate(forms)]
    data = [bytes([k + 1, 0x21 + k, 65 + k, 97 + k, k, 9]) for k in range(len(forms))]
    want = [dict(p=k + 1, lo=1 + k, hi=2, s=bytes([65 + k, 97 + k]), r=[k, 9]) for k in range(len(forms))]
    for first in range(len(forms)):
        objects = [cls.create_from_string(d) for cls, d in zip(classes, data)]
        turns = list(range(len(forms)))
        turns = turns[first:] + turns[:first]
        for k in turns:
            for name in order:
                ctx.eq(getattr(objects[k], name), want[k][name], "%s of struct %d in %s" % (name, k, case))
                ctx.step()
        objects = [cls.create_from_string(d) for cls, d in zip(classes, data)]
        for k in turns:
            setattr(objects[k], order[0], want[k][order[0]])
            ctx.eq(objects[k].to_bytes(), data[k], "bytes of struct %d in %s" % (k, case))
            ctx.eq(classes[k].sizeof(objects[k]), 6, "size of struct %d in %s" % (k, case))
            ctx.eq(classes[k](**want[k]).to_bytes(), data[k], "created struct %d in %s" % (k, case))
        fresh = [cls.create_from_string(d) for cls, d in zip(classes, data)]
        for k in turns:
            ctx.eq(fresh[k].to_bytes(), data[k], "unread struct %d in %s" % (k, case))
            ctx.eq(repr(objects[k]), repr(classes[k](**want[k])), "repr of struct %d in %s" % (k, case))
    ctx.state(forms, order)
    ctx.outcome('same')
    ctx.trace()


def gen_shared(n):
    def gen():
        for forms in itertools.product(('lazy', 'plain', 'apart', 'inner', 'half'), repeat=n):
            for order in (['p', 'lo', 'hi', 's', 'r'], ['lo', 'p', 's', 'r', 'hi'], ['hi', 'r', 'lo', 'p', 's'], ['s', 'p', 'hi', 'lo', 'r']):
                yield [list(forms), order]
    return gen


class ConstStruct(Struct):
    _fields_ = [UBInt8('a'), UBInt8('b')]


CONST_STRUCT = ConstStruct(a=1, b=2)


class Mark(FixedSizer, Marshal):
    size = 1

    def create_from_stream(self, stream, context=EMPTY_CONTEXT, *args, **kwargs):
        data = stream.read(1)
        if data == b'\x02':
            raise ValueError("two")
        return data

    def write_to_stream(self, obj, stream, context=EMPTY_CONTEXT):
        stream.write(obj)


MARK = Mark()


LARGE = {'lazy': (8192, 12)}


def spaces(tier):
    quick = tier == 'quick'
    return [
        Space('first', gen(1, ('plain', 'derived', 'init', 'context'), STARTS), run, 'one operation', ['same', 'raises']),
        Space('histories', gen(2, ('plain',), ('empty', 'string', 'stream') if quick else STARTS), run,
              'histories of two operations', ['same', 'raises']),
        Space('variants', gen(2, ('derived', 'init'), ('kwargs', 'string'), 14 if quick else None), run, 'derived structs and constructors that touch fields', ['same', 'raises']),
        Space('once', lambda: ([list(o), n] for n in (False, True) for o in itertools.product(range(5), repeat=4 if quick else 6)), run_once,
              'how often values are parsed', ['ok']),
        Space('invalid', lambda: ([k, list(o)] for k in ('map', 'const', 'const struct', 'array')
                                  for o in itertools.product(('p', 'x', 'q', 'bytes'), repeat=3 if quick else 4)), run_invalid,
              'invalid content in a lazy group', []),
        Space('shared', gen_shared(2 if quick else 3), run_shared, 'the same fields in several structs', ['same']),
    ] + ([] if quick else [Space('long', gen(3, ('plain',), ('string', 'kwargs'), 24), run, 'histories of three operations', ['same', 'raises'])])
