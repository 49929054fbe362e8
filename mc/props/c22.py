"""C22: instances start with the given values or each field's own default."""
import copy
import inspect
import io
import itertools
from mc.core import Space
from mc import sfamily
from mc.sfamily import StructItem, Rec, construct, same, show, parse
from mc.rec import record
from infi.instruct import *
from infi.instruct.base import Marshal, EMPTY_CONTEXT
from infi.instruct.errors import StructNotWellDefinedError
from infi.instruct.struct import Struct, Field, AnonymousField
from infi.instruct.struct.optional import OptionalField
from infi.instruct.struct.selector import FuncStructSelectorMarshal
from infi.instruct.buffer import (Buffer, bytes_ref, uint_field, int_field, be_uint_field, le_uint_field, be_int_field, le_int_field, float_field,
                                  str_field, bytearray_field, list_field, buffer_field, json_field, uint8, after_ref)

ID = 'C22'
RULE = ('shapes: all chains of up to three classes with or without fields of their own and with each kind of constructor, and mixins, '
        'created with all subsets of keywords; kinds: all field kinds with and without defaults; sharing: all histories of changes to a depth')
ASSUMPTIONS = ["positional arguments of a struct without a constructor are not specified",
               "a constructor that calls the next one itself decides what that one gets"]

F = ('f0', 'f1', 'f2')

# ---------------------------------------------------------------- shapes of structs
# kind: (parameters, what is passed to the next constructor, whether it assigns f0)
KINDS = {
    'none': None,
    'plain': ('self', '', None),
    'silent': ('self, *args, **kwargs', None, None),
    'all': ('self, *args, **kwargs', '*args, **kwargs', None),
    'stop': ('self, *args, **kwargs', '', None),
    'named': ('self, f0', '', None),
    'default': ('self, f0=55, x=66', '', None),
    'extra': ('self, x', '', None),
    'mixed': ('self, x, f1=77, *args, **kwargs', '**kwargs', None),
    'again': ('self, f0=44, **kwargs', 'f0=f0, **kwargs', None),
    'kwonly': ('self, *, f1=88, x=99', '', None),
    'assign': ('self, **kwargs', '**kwargs', 'f0'),
}


def make_init(kind, log, label):
    params, forward, assign = KINDS[kind]
    code = "def __init__(%s):\n    log(%r, self, dict(locals()))\n" % (params, label)
    if forward is not None:
        code += "    super(holder[0], self).__init__(%s)\n" % forward
    if assign:
        code += "    self.%s = 111\n" % assign
    holder = []
    space = dict(log=log, holder=holder)
    exec(code, space)
    return space['__init__'], holder


def clean(d):
    return dict((k, v) for k, v in d.items() if k not in ('self', 'log', 'holder'))


class Shape(object):
    """A chain of classes; fields[i] is the number of fields that class i declares (None: inherits)."""

    def __init__(self, levels):
        self.calls = []
        self.levels = levels
        self.classes = []
        def log(label, obj, given):
            self.calls.append((label, clean(given), [getattr(obj, f, 'no field') for f in F]))
        bases = (Struct,)
        for i, (count, kind) in enumerate(levels):
            attrs = dict(__module__='case')
            if count is not None:
                attrs['_fields_'] = [UBInt8(f, 10 * (i + 1) + k) if k != 1 else Field(f, UBInt16) for k, f in enumerate(F[:count])]
            holder = None
            if KINDS[kind]:
                attrs['__init__'], holder = make_init(kind, log, i)
            cls = type(Struct)('K%d' % i, bases, attrs)
            if holder is not None:
                holder.append(cls)
            self.classes.append(cls)
            bases = (cls,)

    def defaults(self, bottom):
        """The fields of the class and their defaults."""
        for i in range(bottom, -1, -1):
            count = self.levels[i][0]
            if count is not None:
                return dict((f, 10 * (i + 1) + k if k != 1 else None) for k, f in enumerate(F[:count]))

    def expect(self, bottom, args, kwargs):
        """The calls and values, or None if Python rejects the arguments."""
        values = self.defaults(bottom)
        fields = set(values)
        values.update((k, v) for k, v in kwargs.items() if k in fields)
        calls = []

        def next_init(i):
            while i >= 0 and KINDS[self.levels[i][1]] is None:
                i -= 1
            return i

        def call(i, args, kwargs):
            i = next_init(i)
            if i < 0:          # the base of all structs sets what it is given
                values.update((k, v) for k, v in kwargs.items() if k in fields)
                return
            params, forward, assign = KINDS[self.levels[i][1]]
            given = binder(params)(None, *args, **kwargs)      # TypeError if they don't match
            given = clean(given)
            calls.append((i, given, [values.get(f, 'no field') for f in F]))
            if forward is not None:
                a, k = forwarder(params, forward)(*args, **kwargs)
                call(i - 1, a, k)
            if assign:
                values[assign] = 111
        first = next_init(bottom)
        given = dict((k, v) for k, v in kwargs.items() if k not in fields)
        if first >= 0:
            names = inspect.getfullargspec(init_of(KINDS[self.levels[first][1]][0]))
            for n in names.args + names.kwonlyargs:
                if n in kwargs:
                    given[n] = kwargs[n]
        try:
            call(bottom, args, given)
        except TypeError:
            return None
        return calls, values


CACHE = {}


def binder(params):
    if params not in CACHE:
        space = {}
        exec("def f(%s): return dict(locals())" % params, space)
        CACHE[params] = space['f']
    return CACHE[params]


def forwarder(params, forward):
    if (params, forward) not in CACHE:
        space = {}
        exec("def g(%s): return (lambda *a, **k: (a, k))(%s)" % (params.replace('self, ', '').replace('self', ''), forward), space)
        CACHE[params, forward] = space['g']
    return CACHE[params, forward]


def init_of(params):
    space = {}
    exec("def f(%s): pass" % params, space)
    return space['f']


def run_shape(case, ctx):
    levels = [tuple(x) for x in case]
    shape = Shape(levels)
    keyword_sets = []
    for n in range(len(F) + 1):
        keyword_sets += list(itertools.combinations(F, n))
    for bottom in range(len(levels)):
        cls = shape.classes[bottom]
        defaults = shape.defaults(bottom)
        for fields in keyword_sets:
            for extra in ((), ('x',), ('y',), ('x', 'y')):
                for args, base in (((), 200), ((5,), 200), ((), 0)):
                    if base == 0 and (len(levels) == 3 or not fields + extra):
                        continue
                    kwargs = dict((k, base + i) for i, k in enumerate(fields + extra))       # values may be false
                    what = "%s of %s with %s %s" % (bottom, levels, args, sorted(kwargs.items()))
                    want = shape.expect(bottom, args, kwargs)
                    del shape.calls[:]
                    given = dict(kwargs)
                    try:
                        o = cls(*args, **kwargs)
                    except TypeError as e:
                        ctx.outcome('rejected')
                        ctx.true(want is None, "%s failed: %s" % (what, e))
                        continue
                    ctx.eq(kwargs, given, "keywords after creating %s" % what)
                    if want is None:
                        ctx.fail("%s was accepted as %s", what, show(o))
                    calls, values = want
                    ctx.eq(shape.calls, calls, "calls of constructors for %s" % what)
                    ctx.eq(dict((f, getattr(o, f)) for f in defaults), dict((f, values[f]) for f in defaults), "fields of %s" % what)
                    ctx.outcome('created')
                    ctx.step()
        ctx.state(levels, bottom)
    ctx.trace()


def gen_shapes(tier):
    def gen():
        kinds = sorted(KINDS)
        for count in (0, 1, 2, 3):
            for kind in kinds:
                yield [[count, kind]]
        for a, b in itertools.product(kinds, repeat=2):
            for x, y in ((1, None), (2, 3), (3, 1)):
                yield [[x, a], [y, b]]
        few = ['none', 'all', 'named', 'stop', 'mixed', 'kwonly', 'assign'] if tier == 'quick' else kinds
        for a, b, c in itertools.product(few, repeat=3):
            for x, y, z in ((2, None, None), (1, 3, None), (1, None, 2)) if tier != 'quick' else ((2, None, None), (1, None, 2)):
                yield [[x, a], [y, b], [z, c]]
    return gen


# ---------------------------------------------------------------- mixins

def run_mixin(case, ctx):
    where, kind, fields, keywords = case
    calls = []

    def log(label, obj, given):
        calls.append((clean(given), [getattr(obj, f, 'no field') for f in F]))
    init, holder = make_init(kind, log, 'm')
    mixin = type('Mixin', (object,), dict(__init__=init))
    holder.append(mixin)
    attrs = dict(_fields_=[UBInt8(f, 10 + k) for k, f in enumerate(F[:fields])], __module__='case')
    if where == 'first':
        cls = type(Struct)('K', (mixin, Struct), attrs)
    elif where == 'derived':
        cls = type(Struct)('K', (mixin, type(Struct)('Base', (Struct,), attrs)), dict(__module__='case'))
    else:
        cls = type(Struct)('K', (type(Struct)('Base', (mixin, Struct), attrs),), dict(__module__='case'))
    kwargs = dict((k, 200 + i) for i, k in enumerate(keywords))
    defaults = dict((f, 10 + k) for k, f in enumerate(F[:fields]))
    values = dict(defaults)
    values.update((k, v) for k, v in kwargs.items() if k in values)
    spec = inspect.getfullargspec(init)
    given = dict((k, v) for k, v in kwargs.items() if k not in values or k in spec.args + spec.kwonlyargs)
    try:
        bound = inspect.signature(init).bind(None, **given)
    except TypeError:
        ctx.rejects(lambda: cls(**kwargs), "%s" % (case,))
        return
    o = cls(**kwargs)
    params, forward, assign = KINDS[kind]
    space = {}
    exec("def f(%s): return dict(locals())" % params, space)
    ctx.eq(calls, [(clean(space['f'](None, **given)), [values.get(f, 'no field') for f in F])], "calls of the mixin's constructor in %s" % (case,))
    if forward == 'f0=f0, **kwargs' and 'f0' in values:
        values['f0'] = given.get('f0', 44)
    if assign:
        values[assign] = 111
    ctx.eq(dict((f, getattr(o, f)) for f in defaults), dict((k, v) for k, v in values.items() if k in defaults), "fields in %s" % (case,))
    ctx.state(*map(repr, case))
    ctx.step()
    ctx.outcome('created')


def gen_mixin():
    for where in ('first', 'derived', 'below'):
        for kind in sorted(KINDS):
            if kind == 'none':
                continue
            for fields in (1, 2, 3):
                for n in range(4):
                    for keywords in itertools.combinations(F + ('x',), n):
                        yield [where, kind, fields, list(keywords)]


# ---------------------------------------------------------------- all kinds of fields

class Inner(Struct):
    _fields_ = [UBInt8('a', 3), UBInt8('b')]

    def __eq__(self, other):
        return isinstance(other, Inner) and (self.a, self.b) == (other.a, other.b)

    def __ne__(self, other):
        return not self == other


STRUCT_KINDS = {
    'number': (lambda n, d: UBInt16(n, d), 5, 6),
    'float': (lambda n, d: BFloat64(n, d), 0.5, 2.0),
    'field': (lambda n, d: Field(n, UBInt32, d), 0, 9),
    'padded': (lambda n, d: PaddedString(n, 4, default=d), b'ab', b''),
    'fixed string': (lambda n, d: FixedSizeString(n, 4, default=d), b'', b'x'),
    'fixed buffer': (lambda n, d: FixedSizeBuffer(n, 2, default=d), b'ab', b'cd'),
    'var string': (lambda n, d: VarSizeString(n, UBInt8, default=d), b'', b'q'),
    'var buffer': (lambda n, d: VarSizeBuffer(n, UBInt8, default=d), b'zz', b''),
    'fixed array': (lambda n, d: FixedSizeArray(n, 2, UBInt8, default=d), [1, 2], [0, 0]),
    'var array': (lambda n, d: VarSizeArray(n, UBInt8, UBInt8, default=d), [], [3]),
    'sum array': (lambda n, d: SumSizeArray(n, UBInt8, UBInt8, default=d), [1], []),
    'nested array': (lambda n, d: VarSizeArray(n, UBInt8, VarSizeArrayMarshal(UBInt8, UBInt8), default=d), [[1], []], [[2, 3]]),
    'structs': (lambda n, d: VarSizeArray(n, UBInt8, Inner, default=d), lambda: [Inner(b=1)], lambda: [Inner(a=2, b=2), Inner(b=0)]),
    'map': (lambda n, d: MappingField(n, UBInt8, {'x': 1, 'y': 0}, default=d), 'x', 'y'),
    'struct': (lambda n, d: Field(n, Inner, d), lambda: Inner(b=7), lambda: Inner(a=0, b=8)),
    'selected': (lambda n, d: Field(n, StructSelector(UBInt8, {3: Inner}), d), lambda: Inner(b=7), lambda: Inner(a=3, b=8)),
    'chosen': (lambda n, d: SelectStructByFunc(n, lambda obj, stream, context: Inner, default=d), lambda: Inner(b=7), lambda: Inner(a=3, b=8)),
    'optional': (lambda n, d: OptionalField(n, UBInt8, lambda obj, stream, context: False, d), 4, 0),
    'bits': (lambda n, d: BitFields(BitField(n, 7, d), BitFlag('rest', 1)), 5, 100),
    'flag': (lambda n, d: BitFields(BitPadding(7), BitFlag(n, d)), 1, 0),
    'positions': (lambda n, d: BitFields(BitField(n, [slice(0, 2), slice(6, 8)], d), BitField('rest', slice(2, 6), 1)), 5, 15),
    'lazy number': (lambda n, d: Lazy(UBInt8('rest', 0), UBInt16(n, d)), 5, 6),
    'lazy bits': (lambda n, d: Lazy(BitFields(BitField(n, 8, d))), 5, 6),
    'lazy struct': (lambda n, d: Lazy(Field(n, Inner, d), UBInt8('rest', 0)), lambda: Inner(b=7), lambda: Inner(a=0, b=8)),
    'lazy array': (lambda n, d: Lazy(FixedSizeArray(n, 2, UBInt8, default=d)), [1, 2], [0, 0]),
}


def value(v):
    return v() if callable(v) else copy.deepcopy(v)


def run_kind(case, ctx):
    kind, with_default, given, neighbours, how = case
    make, default, other = STRUCT_KINDS[kind]
    kept = value(default) if with_default else None
    fields = [make('v', kept)]
    if neighbours:
        fields = [UBInt8('before', 21)] + fields + [UBInt8('after', 22), VarSizeArray('list', UBInt8, UBInt8, default=[7])]
    cls = type(Struct)('S', (Struct,), dict(_fields_=fields, __module__='case'))
    if how == 'derived':
        cls = type(Struct)('T', (cls,), dict(__module__='case'))
    elif how == 'extended':
        cls = type(Struct)('T', (cls,), dict(_fields_=cls._fields_ + [UBInt8('last', 23)], __module__='case'))
    kwargs = dict(v=value(other)) if given else {}
    if given == 2 and neighbours:
        kwargs['after'] = 99
    if given:
        ctx.true(cls(v=None).v is None, "the given None of %s was replaced" % (case,))
    o = cls(**kwargs)
    ctx.eq(o.v, value(other) if given else value(default) if with_default else None, "the field of %s" % (case,))
    if given:
        ctx.true(o.v is kwargs['v'], "the given value of %s was replaced by a copy" % (case,))
    if neighbours:
        ctx.eq((o.before, o.after, o.list), (21, 99 if given == 2 else 22, [7]), "other fields of %s" % (case,))
    # two instances and the default don't share anything that can be changed
    p = cls(**(dict(v=value(other)) if given else {}))
    if neighbours:
        o.list.append(1)
        ctx.eq((p.list, cls().list), ([7], [7]), "lists of other instances of %s" % (case,))
    want = value(other) if given else value(default) if with_default else None
    change(o.v)
    ctx.eq(p.v, want, "another instance of %s" % (case,))
    if with_default:
        ctx.eq(cls().v, value(default), "a new instance of %s" % (case,))
        ctx.eq(kept, value(default), "the default of %s" % (case,))
    setattr(o, 'v', value(other))
    ctx.eq(p.v, want, "another instance of %s after assigning" % (case,))
    ctx.state(*map(repr, case))
    ctx.step()
    ctx.outcome('given' if given else 'default' if with_default else 'unset')


def change(v):
    """Changes everything within the value that can be."""
    if isinstance(v, list):
        for x in v:
            change(x)
        v.append(91)
    elif isinstance(v, dict):
        for x in v.values():
            change(x)
        v['changed'] = 1
    elif isinstance(v, bytearray):
        v.extend(b'!')
    elif isinstance(v, (Inner, Part)):
        v.a = 92


def gen_kinds():
    for kind in sorted(STRUCT_KINDS):
        for with_default in (0, 1):
            for given in (0, 1, 2):
                for neighbours in (0, 1):
                    for how in ('own', 'derived', 'extended'):
                        yield [kind, with_default, given, neighbours, how]


# ---------------------------------------------------------------- records

class Part(Buffer):
    a = uint_field(where=bytes_ref[0], default=3)
    b = uint_field(where=bytes_ref[1])

    def __eq__(self, other):
        return isinstance(other, Part) and (self.a, self.b) == (other.a, other.b)

    def __ne__(self, other):
        return not self == other


RECORD_KINDS = {
    'uint': (lambda **kw: uint_field(where=bytes_ref[1:3], **kw), 5, 6),
    'int': (lambda **kw: int_field(where=bytes_ref[1:3], **kw), -5, 0),
    'be': (lambda **kw: be_uint_field(where=bytes_ref[1:4], **kw), 0, 1),
    'le': (lambda **kw: le_int_field(where=bytes_ref[1:5], **kw), 0, -1),
    'float': (lambda **kw: float_field(where=bytes_ref[1:9], **kw), 1.5, 0.0),
    'bits': (lambda **kw: uint_field(where=bytes_ref[1].bits[2:5], **kw), 5, 6),
    'str': (lambda **kw: str_field(where=bytes_ref[1:4], **kw), 'ab', ''),
    'bytes': (lambda **kw: bytearray_field(where=bytes_ref[1:3], **kw), bytearray(b'ab'), bytearray(b'cd')),
    'list': (lambda **kw: list_field(uint8, n=2, where=bytes_ref[1:3], **kw), [1, 2], [3, 4]),
    'open list': (lambda **kw: list_field(uint8, where=bytes_ref[1:], **kw), [], [1, 2, 3]),
    'records': (lambda **kw: list_field(Part, where=bytes_ref[1:], **kw), lambda: [Part(b=1)], lambda: [Part(a=1, b=2), Part(b=3)]),
    'record': (lambda **kw: buffer_field(Part, where=bytes_ref[1:3], **kw), lambda: Part(b=1), lambda: Part(a=1, b=2)),
    'json': (lambda **kw: json_field(where=bytes_ref[1:], **kw), {'k': [1, {'l': 2}]}, [[1], {}]),
}


def run_record(case, ctx):
    kind, with_default, given, how = case
    make, default, other = RECORD_KINDS[kind]
    kept = value(default)
    attrs = dict(first=uint_field(where=bytes_ref[0], default=21), v=make(default=kept) if with_default else make())
    if how == 'init':
        def init(self, extra=None, **kwargs):
            Buffer.__init__(self, **kwargs)
            self.extra = extra
        attrs['__init__'] = init
    if how == 'derived':
        cls = record({}, (record(attrs),))
    elif how == 'split':
        cls = record(dict(v=attrs['v']), (record(dict(first=attrs['first'])),))
    elif how == 'redefined':
        cls = record(dict(first=attrs['first']), (record(dict(v=attrs['v'], first=uint_field(where=bytes_ref[0], default=77))),))
    elif how == 'two bases':
        cls = record({}, (record(dict(v=attrs['v'])), record(dict(first=attrs['first']))))
    elif how == 'mixin':
        cls = record({}, (type('Mixin', (object,), dict(v=attrs['v'])), record(dict(first=attrs['first']))))
    elif how == 'mixin again':
        mixin = type('Mixin', (object,), dict(v=attrs['v']))
        other_cls = record({}, (mixin, record(dict(first=attrs['first']))))
        cls = record({}, (mixin, record(dict(first=uint_field(where=bytes_ref[0], default=21)))))
    else:
        cls = record(attrs)
    kwargs = dict(v=value(other)) if given else {}
    if given == 2:
        kwargs['first'] = 99
    if given:
        ctx.true(cls(v=None).v is None, "the given None of %s was replaced" % (case,))
    o = cls(**kwargs)
    ctx.eq(o.v, value(other) if given else value(default) if with_default else None, "the field of %s" % (case,))
    if given:
        ctx.true(o.v is kwargs['v'], "the given value of %s was replaced by a copy" % (case,))
    ctx.eq(o.first, 99 if given == 2 else 21, "the other field of %s" % (case,))
    p = cls(**(dict(v=value(other)) if given else {}))
    want = value(other) if given else value(default) if with_default else None
    change(o.v)
    ctx.eq(p.v, want, "another instance of %s" % (case,))
    if with_default:
        ctx.eq(cls().v, value(default), "a new instance of %s" % (case,))
        ctx.eq(kept, value(default), "the default of %s" % (case,))
    for bad in ('nothing', 'V', '__fields__', 'pack', 'byte_size', 'v '):
        ctx.rejects(lambda: cls(**{bad: 1}), "unknown keyword %r of %s" % (bad, case))
        ctx.rejects(lambda: cls(first=1, **{bad: 1}), "unknown keyword %r of %s" % (bad, case))
    if how == 'init':
        ctx.eq(cls(extra=4, first=3).extra, 4, "argument of the record's own constructor")
    packed = cls(v=value(other)).pack()
    back = cls()
    back.unpack(bytes(packed))
    ctx.eq((back.v, back.first), (value(other), 21), "unpacked %s" % (case,))
    back.first = 5
    ctx.eq((o.first, p.first, cls().first), (99 if given == 2 else 21, 21, 21), "fields of other instances of %s" % (case,))
    ctx.state(*map(repr, case))
    ctx.step()
    ctx.outcome('given' if given else 'default' if with_default else 'unset')


def gen_records():
    for kind in sorted(RECORD_KINDS):
        for with_default in (0, 1):
            for given in (0, 1, 2):
                for how in ('own', 'derived', 'split', 'redefined', 'two bases', 'mixin', 'mixin again', 'init'):
                    yield [kind, with_default, given, how]


# ---------------------------------------------------------------- histories of changes

def run_history(case, ctx):
    """Two instances with the same defaults: what one does is not seen by the other."""
    side, kinds, depth = case[:3]
    first = [tuple(x) for x in case[3:]]

    def define():
        if side == 'struct':
            return type(Struct)('S', (Struct,), dict(_fields_=[STRUCT_KINDS[k][0]('v%d' % i, value(STRUCT_KINDS[k][1])) for i, k in enumerate(kinds)],
                                                     __module__='case'))
        return record(dict(('v%d' % i, RECORD_KINDS[k][0](default=value(RECORD_KINDS[k][1]))) for i, k in enumerate(kinds)))
    table = STRUCT_KINDS if side == 'struct' else RECORD_KINDS
    names = ['v%d' % i for i in range(len(kinds))]
    ops = [(w, op, i) for w in (0, 1) for op in ('change', 'assign', 'give', 'create', 'write') for i in range(len(kinds))]
    for history in itertools.product(ops, repeat=depth - len(first)):
        history = tuple(first) + history
        cls = define()
        objs = [cls(), cls()]
        model = [[value(table[k][1]) for k in kinds] for w in (0, 1)]
        for w, op, i in history:
            if op == 'change':
                change(getattr(objs[w], names[i]))
                change(model[w][i])
            elif op == 'assign':
                setattr(objs[w], names[i], value(table[kinds[i]][2]))
                model[w][i] = value(table[kinds[i]][2])
            elif op == 'give':
                objs[w] = cls(**{names[i]: value(table[kinds[i]][2])})
                model[w] = [value(table[k][2 if j == i else 1]) for j, k in enumerate(kinds)]
            elif op == 'create':
                objs[w] = cls()
                model[w] = [value(table[k][1]) for k in kinds]
            else:
                try:
                    objs[w].to_bytes() if side == 'struct' else objs[w].pack()
                except Exception:
                    pass
            for x in (0, 1):
                ctx.eq([getattr(objs[x], n) for n in names], model[x], "instance %d of %s after %s" % (x, kinds, history))
            ctx.step()
        ctx.state(side, kinds, repr(model))
    ctx.trace()
    ctx.outcome('ok')


def gen_history(tier):
    def gen():
        for case in whole():
            for w in (0, 1):
                for op in ('change', 'assign', 'give', 'create', 'write'):
                    for i in range(len(case[1])):
                        yield case + [[w, op, i]]

    def whole():
        depth = 3 if tier == 'quick' else 4
        for kind in ('var array', 'nested array', 'structs', 'struct', 'lazy struct', 'lazy array', 'number', 'selected', 'optional'):
            yield ['struct', [kind], depth]
        for kind in ('bytes', 'open list', 'records', 'record', 'json'):
            yield ['record', [kind], depth]
        for a, b in (('struct', 'structs'), ('var array', 'nested array'), ('lazy array', 'var array')):
            yield ['struct', [a, b], 2 if tier == 'quick' else 3]
        for a, b in (('record', 'json'), ('list', 'bytes')):
            yield ['record', [a, b], 2 if tier == 'quick' else 3]
    return gen


# ---------------------------------------------------------------- definitions

def run_definition(case, ctx):
    name, bases, own = case
    chain = Struct
    has = False
    for b in bases:
        if b == 'mixin':
            chain = type('Mixed', (object,), {}), chain
        elif b == 'fields':
            chain = define('Base', chain, dict(_fields_=[UBInt8('x', 4)]))
            has, inherited = True, ('x', 4)
        elif b == 'mixed fields':
            chain = type('MixedFields', (object,), dict(_fields_=[UBInt8('z', 7)])), chain
            has, inherited = True, ('z', 7)
    attrs = {'list': dict(_fields_=[UBInt8('y', 5)]), 'tuple': dict(_fields_=(UBInt8('y', 5),)), 'none': {}, 'wrong': dict(fields=[UBInt8('y', 5)])}[own]
    if own in ('none', 'wrong') and not has:
        e = ctx.rejects(lambda: define(name, chain, attrs), "definition without fields %s" % (case,))
        ctx.true(isinstance(e, StructNotWellDefinedError), "%r for a definition without fields" % (e,))
        return
    cls = define(name, chain, attrs)
    o = cls()
    field, default = ('y', 5) if own in ('list', 'tuple') else inherited
    ctx.eq((getattr(o, field), getattr(cls(**{field: 8}), field)), (default, 8), "fields of %s" % (case,))
    ctx.eq(cls(**{field: 8}).to_bytes(), b'\x08', "bytes of %s" % (case,))
    ctx.eq(getattr(cls.create_from_string(b'\x09'), field), 9, "parsed %s" % (case,))
    ctx.state(*map(repr, case))
    ctx.outcome('defined')


def define(name, bases, attrs):
    return type(Struct)(name, bases if isinstance(bases, tuple) else (bases,), dict(attrs, __module__='case'))


def gen_definitions():
    for name in ('A', 'Struct', 'Buffer', 'object'):
        for bases in ([], ['fields'], ['mixin'], ['fields', 'mixin'], ['fields', 'fields'],
                      ['mixed fields'], ['fields', 'mixed fields'], ['fields', 'fields', 'mixed fields']):
            for own in ('list', 'tuple', 'none', 'wrong'):
                yield [name, bases, own]


def run_record_name(case, ctx):
    cls = type(Buffer)(case, (Buffer,), dict(x=uint_field(where=bytes_ref[0], default=4), __module__='case'))
    ctx.eq((cls().x, cls(x=5).x, bytes(cls(x=6).pack()), cls.byte_size), (4, 5, b'\x06', 1), "record named %s" % case)
    ctx.rejects(lambda: cls(y=1), "unknown keyword of a record named %s" % case)
    ctx.state(case)
    ctx.outcome('defined')


# ---------------------------------------------------------------- arguments for the constructor when parsing

PARSE_INITS = {
    'positional': ('self, x', [((5,), {})]),
    'keyword': ('self, x', [((), {'x': 5})]),
    'both': ('self, x, y=3', [((5,), {}), ((5,), {'y': 4}), ((5, 6), {})]),
    'anything': ('self, *args, **kwargs', [((), {}), ((1, 2), {}), ((1,), {'x': 2}), ((), {'unknown': 3})]),
    'kwonly': ('self, *, x=1, y', [((), {'y': 2}), ((), {'x': 3, 'y': 4})]),
    'none': (None, [((), {'unknown': 1})]),
}


def run_parsed(case, ctx):
    """Structs that are created by parsing: the constructor gets the arguments, the fields what is parsed."""
    items, kind, base = case
    params, calls = PARSE_INITS[kind]
    log = []
    attrs = {}
    if params:
        space = dict(log=log)
        exec("def __init__(%s):\n    log.append(dict(locals()))\n    self.mark = 'made'\n" % params, space)
        attrs['__init__'] = space['__init__']
    s = StructItem(items, name='Top')
    if base and params:
        mixin = type(Struct)('Mixin', (Struct,), dict(attrs, _fields_=[], __module__='case'))
        cls = s.define((mixin,))
    else:
        cls = s.define(**attrs)
    for combo in s.few():
        spec = s.spec(combo)
        data = sfamily.Fields.encode(s, combo)
        for args, kwargs in calls:
            for how in ('string', 'stream'):
                what = "%s, parsed with %s %s" % (case, args, kwargs)
                given = dict(kwargs)
                del log[:]
                if how == 'string':
                    back = cls.create_from_string(data, EMPTY_CONTEXT, *args, **kwargs)
                else:
                    stream = io.BytesIO(data + b'\xff')
                    back = cls.create_from_stream(stream, EMPTY_CONTEXT, *args, **kwargs)
                    ctx.eq(stream.tell(), len(data), "end of stream after %s" % what)
                if not same(back, spec):
                    ctx.fail("%s gave %s from %r", what, show(back), data)
                ctx.eq(back.to_bytes(), data, "to_bytes of %s" % what)
                ctx.eq(kwargs, given, "the arguments of %s" % what)
                if params:
                    want = inspect.signature(attrs['__init__']).bind(back, *args, **kwargs)
                    want.apply_defaults()
                    ctx.eq(len(log), 1, "calls of the constructor of %s" % what)
                    ctx.eq(dict((k, v) for k, v in log[0].items() if k not in ('self', 'log')),
                           dict((k, v) for k, v in want.arguments.items() if k != 'self'), "arguments of the constructor of %s" % what)
                    ctx.eq(back.mark, 'made', what)
                ctx.step()
    ctx.state(*map(repr, case))
    ctx.outcome('parsed')


def gen_parsed():
    for kind in sorted(PARSE_INITS):
        for base in (0, 1):
            for item in sfamily.ALL:
                yield [[item], kind, base]
            for item in sfamily.SIMPLE[:3] + sfamily.ITEMS[:2]:
                yield [[item, 'vstr', ['bits', [8]]], kind, base]


LARGE = {'classes': (32, 16)}


def spaces(tier):
    return [
        Space('kinds', gen_kinds, run_kind, 'field kinds of structs with and without defaults', ['given', 'default', 'unset']),
        Space('records', gen_records, run_record, 'field kinds of records with and without defaults', ['given', 'default', 'unset', 'rejected']),
        Space('mixins', gen_mixin, run_mixin, 'constructors of mixins', ['created', 'rejected']),
        Space('shapes', gen_shapes(tier), run_shape, 'chains of classes and constructors', ['created', 'rejected']),
        Space('histories', gen_history(tier), run_history, 'histories of changes of two instances', ['ok']),
        Space('parsed', gen_parsed, run_parsed, 'structs parsed with arguments for their constructors', ['parsed']),
        Space('definitions', gen_definitions, run_definition, 'definitions with and without fields', ['defined', 'rejected']),
        Space('record names', lambda: iter(['A', 'Buffer', 'Struct']), run_record_name, 'names of records', ['defined', 'rejected']),
    ]
