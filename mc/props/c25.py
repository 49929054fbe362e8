"""C25: the context, and arguments for constructors, reach everything that takes part in reading, writing and printing a struct."""
import io
import itertools
from mc.core import Space
from infi.instruct import (Struct, UBInt8, Lazy, BitFields, FixedSizeArray, VarSizeArray, SumSizeArray, VarSizeString, VarSizeBuffer,
                           StructSelector, SelectStructByFunc, MappingField, ConstField)
from infi.instruct.base import (Marshal, FixedSizer, CallableReader, ConstReader, ReadOnlyContext, WritableContext, EMPTY_CONTEXT)
from infi.instruct.numeric_macros import MarshalWithField
from infi.instruct.array import FixedSizeArrayMarshal, VarSizeArrayMarshal, SumSizeArrayMarshal
from infi.instruct.mapping import FixedSizeMappingMarshal
from infi.instruct.string import VarSizeStringMarshal, VarSizeBufferMarshal
from infi.instruct.struct import Field, AnonymousField
from infi.instruct.struct.bit import PositionalBitMarshal
from infi.instruct.struct.optional import OptionalField
from infi.instruct.struct.selector import StructSelectorMarshal, FuncStructSelectorMarshal

ID = 'C25'
RULE = ('a case is one tree of structs and types whose numbers, lengths, keys, predicates and functions record the context they get, with the contexts '
        'of the outer and the inner struct class and the context given to the operation: all combinations, in histories of reading, writing and printing')
ASSUMPTIONS = ['values are read from lazy fields with the context with which the struct was read']


# ---------------------------------------------------------------- what records its context

NO_ARGS = ((), {})
ARGS = (('a', 2), {'extra': 'x', 'other': None})


class Log(object):
    def __init__(self):
        self.events = []
        self.given, self.wrong, self.made = NO_ARGS, [], set()
        self.building = True

    def got(self, label, args, kwargs):
        self.made.add(label)
        if (args, kwargs) != self.given:
            self.wrong.append((label, args, kwargs))

    def __call__(self, op, label, context, struct=None):
        d = context.get_dict()
        self.events.append((op, label, tuple(sorted((k, v) for k, v in d.items() if k != 'struct')), d.get('struct', None)))
        if struct is not None and d.get('struct') is not struct:
            self.events[-1] = self.events[-1][:3] + ('another struct than the argument',)

    def take(self):
        e, self.events = self.events, []
        return e


class Probe(FixedSizer, Marshal):
    size = 1

    def __init__(self, log, label, measure=False):
        self.log, self.label = log, label
        self.measure = measure           # of something else: whether it gets the arguments is not specified

    def create_from_stream(self, stream, context=EMPTY_CONTEXT, *args, **kwargs):
        self.log('read', self.label, context)
        if not self.measure:
            self.log.got(self.label, args, kwargs)
        data = stream.read(1)
        if len(data) != 1:
            raise ValueError('end')
        return bytearray(data)[0]

    def write_to_stream(self, obj, stream, context=EMPTY_CONTEXT):
        self.log('write', self.label, context)
        stream.write(bytes(bytearray([obj])))

    def to_repr(self, obj, context=EMPTY_CONTEXT):
        self.log('print', self.label, context)
        return '%s:%s' % (self.label, obj)


class BitProbe(Probe):
    size = 4

    def create_from_stream(self, stream, context=EMPTY_CONTEXT, *args, **kwargs):
        self.log('read', self.label, context)
        self.log.got(self.label, args, kwargs)
        return stream.read(4)

    def write_to_stream(self, obj, stream, context=EMPTY_CONTEXT):
        self.log('write', self.label, context)
        stream.write(obj, 4)


# ---------------------------------------------------------------- types: marshal(), value(), and the events on a value

class Node(object):
    """events(value, ctx, struct): (op, label, ctx, struct) of all that should be recorded"""
    printed = True

    def __init__(self, log, label, *parts):
        self.log, self.label = log, label
        self.setup(*parts)

    def make(self, expr, name):
        return make(self.log, self.label + '.' + name, expr)

    def fields(self, name):
        return [Field(name, self.marshal())]

    def attrs(self, name):
        return {name: self.value()}

    def field_events(self, name, obj, ctx):
        return self.events(getattr(obj, name), ctx, obj)

    def probe(self, ctx, struct, label=None, ops=('read', 'write', 'print')):
        return [(op, label or self.label, ctx, struct) for op in ops]


class Plain(Node):
    def setup(self):
        self.m = Probe(self.log, self.label)

    def marshal(self):
        return self.m

    def value(self):
        return 7

    def events(self, v, ctx, struct):
        return self.probe(ctx, struct)


class Wrapped(Plain):
    """As the library's numbers are."""

    def setup(self):
        self.m = MarshalWithField(Probe(self.log, self.label))

    def fields(self, name):
        return [self.m(name)]


class Arr(Node):
    kind = None

    def setup(self, element):
        self.element = self.make(element, 'element')
        self.count = 5 if self.label.count('.') < 2 and isinstance(self.element, Plain) else 2     # not only the first ones
        self.size = Probe(self.log, self.label + '.size', True)

    def marshal(self):
        e = self.element.marshal()
        return {'farr': lambda: FixedSizeArrayMarshal(self.count, e), 'varr': lambda: VarSizeArrayMarshal(self.size, e),
                'sarr': lambda: SumSizeArrayMarshal(self.size, e)}[self.kind]()

    def fields(self, name):
        e = self.element.marshal()
        return [{'farr': lambda: FixedSizeArray(name, self.count, e), 'varr': lambda: VarSizeArray(name, self.size, e),
                 'sarr': lambda: SumSizeArray(name, self.size, e)}[self.kind]()]

    def value(self):
        return [self.element.value() for k in range(self.count)]

    def events(self, v, ctx, struct):
        out = self.probe(ctx, struct, self.label + '.size', ('read', 'write')) if self.kind != 'farr' else []
        for x in v:
            out += self.element.events(x, ctx, struct)
        return out


class Fixed(Arr):
    kind = 'farr'


class Counted(Arr):
    kind = 'varr'


class Summed(Arr):
    kind = 'sarr'


class Text(Node):
    def setup(self, kind):
        self.size = Probe(self.log, self.label + '.size', True)
        self.kind = kind

    def marshal(self):
        return (VarSizeStringMarshal if self.kind == 'string' else VarSizeBufferMarshal)(self.size)

    def fields(self, name):
        return [(VarSizeString if self.kind == 'string' else VarSizeBuffer)(name, self.size)]

    def value(self):
        return b'ab'

    def events(self, v, ctx, struct):
        return self.probe(ctx, struct, self.label + '.size', ('read', 'write'))


class Called(Node):
    """The length comes from a function."""

    def setup(self):
        def length(stream, context):
            self.log('read', self.label, context)
            return 2
        self.size = CallableReader(length)

    def marshal(self):
        return VarSizeBufferMarshal(self.size)

    def value(self):
        return b'xy'

    def events(self, v, ctx, struct):
        return self.probe(ctx, struct, ops=('read',))


class Mapped(Node):
    def setup(self):
        self.number = Probe(self.log, self.label)

    def marshal(self):
        return FixedSizeMappingMarshal({'one': 1, 'two': 2}, self.number)

    def value(self):
        return 'two'

    def events(self, v, ctx, struct):
        return self.probe(ctx, struct, ops=('read', 'write'))


class Opt(Node):
    def setup(self, inner, present=1):
        self.inner, self.present = self.make(inner, 'inner'), present

    def fields(self, name):
        def predicate(obj, stream, context):
            self.log('read', self.label, context, obj)
            return self.present
        return [OptionalField(name, self.inner.marshal(), predicate)]

    def value(self):
        return self.inner.value() if self.present else None

    def events(self, v, ctx, struct):
        return self.probe(ctx, struct, ops=('read',)) + (self.inner.events(v, ctx, struct) if v is not None else [])


class Const(Node):
    def setup(self):
        self.m = Probe(self.log, self.label)

    def fields(self, name):
        return [ConstField(name, 5, self.m)]

    def attrs(self, name):
        return {}

    def events(self, v, ctx, struct):
        return self.probe(ctx, struct)


class Bits(Node):
    def setup(self):
        self.a, self.b = [BitProbe(self.log, self.label + x) for x in ('.a', '.b')]

    def fields(self, name):
        return [BitFields(Field(name + '_a', self.a), Field(name + '_b', self.b))]

    def attrs(self, name):
        return {name + '_a': 3, name + '_b': 4}

    def field_events(self, name, obj, ctx):
        return self.probe(ctx, obj, self.label + '.a') + self.probe(ctx, obj, self.label + '.b')


class Slices(Bits):
    def fields(self, name):
        return [BitFields(Field(name + '_a', PositionalProbe(self.a, 4)), Field(name + '_b', PositionalProbe(self.b, 0)))]


class PositionalProbe(PositionalBitMarshal):
    def __init__(self, probe, start):
        super(PositionalProbe, self).__init__([slice(start, start + 4)])
        self.probe = probe

    def create_from_stream(self, stream, context=EMPTY_CONTEXT, *args, **kwargs):
        stream.seek(self.slices[0].start)
        return self.probe.create_from_stream(stream, context, *args, **kwargs)

    def write_to_stream(self, obj, stream, context=EMPTY_CONTEXT):
        stream.seek(self.slices[0].start)
        self.probe.write_to_stream(obj, stream, context)

    def to_repr(self, obj, context=EMPTY_CONTEXT):
        return self.probe.to_repr(obj, context)


class LazyGroup(Node):
    def setup(self, *items):
        self.items = [self.make(x, str(k)) for k, x in enumerate(items)]

    def fields(self, name):
        return [Lazy(*[f for k, i in enumerate(self.items) for f in i.fields('%s_%d' % (name, k))])]

    def attrs(self, name):
        d = {}
        for k, i in enumerate(self.items):
            d.update(i.attrs('%s_%d' % (name, k)))
        return d

    def field_events(self, name, obj, ctx):
        return [e for k, i in enumerate(self.items) for e in i.field_events('%s_%d' % (name, k), obj, ctx)]


class StructNode(Node):
    """own: the context of the class; base: of its base class"""

    def setup(self, own, base, *items):
        self.items = [self.make(x, str(k)) for k, x in enumerate(items)]
        self.own = own if own is not None else base
        fields = [f for k, i in enumerate(self.items) for f in i.fields('f%d' % k)]
        def init(obj, *args, **kwargs):
            if not self.log.building:
                self.log.got(self.label, args, kwargs)
            super(self.cls, obj).__init__(*args, **kwargs)
        attrs = dict(__module__='case')
        bases = (Struct,)
        if base is not None:
            # from the base class itself, from its base class, or from a mixin of it
            how = (len(items) + len(base)) % 3
            if how == 2:
                mixin = type('Mixin', (object,), dict(attrs, _context_=dict(base)))
                bases = (type(Struct)('Base', (mixin, Struct), dict(attrs, _fields_=fields)),)
            else:
                bases = (type(Struct)('Base', bases, dict(attrs, _fields_=fields, _context_=dict(base))),)
            if how:
                bases = (type(Struct)('Middle', bases, dict(attrs)),)
        else:
            attrs['_fields_'] = fields
        if own is not None:
            attrs['_context_'] = dict(own)
        attrs['__init__'] = init
        self.cls = type(Struct)('S', bases, attrs)

    def marshal(self):
        return self.cls

    def value(self):
        d = {}
        for k, i in enumerate(self.items):
            d.update(i.attrs('f%d' % k))
        return self.cls(**d)

    def events(self, v, ctx, struct):
        inside = dict(self.own or {})
        inside.update(ctx)
        return [e for k, i in enumerate(self.items) for e in i.field_events('f%d' % k, v, inside)]


class Chosen(Node):
    """A struct that's chosen by a key or by a function."""

    def setup(self, how, own, *items):
        self.how = how
        self.struct = self.make(['struct', own, None, 'const'] + list(items), 'struct')
        self.key = Probe(self.log, self.label, True)

    def choose(self, stream, context):
        self.log('read', self.label, context)
        return self.struct.cls

    def marshal(self):
        if self.how == 'key':
            return StructSelectorMarshal(self.key, {5: self.struct.cls})
        if self.how == 'default':
            return StructSelectorMarshal(self.key, {6: self.struct.cls}, self.struct.cls)
        return FuncStructSelectorMarshal(self.choose)

    def fields(self, name):
        def func(obj, stream, context):
            self.log('read', self.label, context, obj)
            return self.struct.cls
        if self.how == 'macro':
            return [SelectStructByFunc(name, func)]
        if self.how == 'key':
            return [Field(name, StructSelector(self.key, {5: self.struct.cls}))]
        return [Field(name, self.marshal())]

    def value(self):
        return self.struct.value()

    def events(self, v, ctx, struct):
        return self.probe(ctx, struct, ops=('read',)) + self.struct.events(v, ctx, struct)


NODES = {'p': Plain, 'w': Wrapped, 'farr': Fixed, 'varr': Counted, 'sarr': Summed, 'text': Text, 'called': Called, 'map': Mapped, 'opt': Opt,
         'const': Const, 'bits': Bits, 'slices': Slices, 'lazy': LazyGroup, 'struct': StructNode, 'chosen': Chosen}


def make(log, label, expr):
    if isinstance(expr, str):
        expr = [expr]
    return NODES[expr[0]](log, label, *expr[1:])


# ---------------------------------------------------------------- operations

GIVEN = {'none': {}, 'one': {'k1': 'g'}, 'two': {'k1': 'g', 'k4': 'g'}, 'formats': {'int_repr_format': '%x', 'k2': 'g'}}
OWN = {'none': None, 'one': {'k1': 'o'}, 'two': {'k1': 'o', 'k2': 'o'}}
INNER = {'none': None, 'one': {'k1': 'i', 'k3': 'i'}, 'two': {'k2': 'i', 'k3': 'i'}}

OPS = ('string', 'stream', 'bytes', 'write', 'repr', 'base read', 'fail read', 'fail write')


def normal(events):
    """Without the struct's identity where there's none"""
    return set((op, label, ctx, id(s)) for op, label, ctx, s in events)


class World(object):
    def __init__(self, expr):
        self.log = Log()
        self.top = make(self.log, 'top', expr)
        self.obj = self.top.value()
        self.log.take()
        self.data = self.top.cls.write_to_string(self.obj)
        self.log.take()
        self.contexts = [(n, n.own and dict(n.own), n.cls.__dict__.get('_context_'), getattr(n.cls, '_context_', None)) for n in structs(self.top)]

    def check(self, ctx, op, obj, given, what):
        got = [e for e in self.log.take() if e[0] == op]
        want = [(o, label, tuple(sorted(c.items())), s) for o, label, c, s in self.top.events(obj, given, None) if o == op]
        self.log.take()
        if normal(got) != normal(want):
            missing = [e for e in want if (e[:3] + (id(e[3]),)) not in normal(got)]
            extra = [e for e in got if (e[:3] + (id(e[3]),)) not in normal(want)]
            ctx.fail("%s: got %s instead of %s", what, brief(extra), brief(missing))

    def unchanged(self, ctx, what):
        for n, own, declared, seen in self.contexts:
            now = getattr(n.cls, '_context_', None)
            ctx.true(now is seen and (now or None) == (own or None), "%s: the context of a class is now %s" % (what, now))
        ctx.eq(EMPTY_CONTEXT.get_dict(), {}, "the empty context after %s" % what)

    def run(self, ctx, op, given_name, form):
        given = dict(GIVEN[given_name])
        context = {'ro': ReadOnlyContext, 'rw': WritableContext}[form](given) if given else EMPTY_CONTEXT
        what = "%s with %s" % (op, given)
        cls = self.top.cls
        log = self.log
        if op in ('string', 'stream', 'base read'):
            log.given, log.wrong, log.made, log.building = ARGS if given_name in ('one', 'formats') else NO_ARGS, [], set(), False
            args, kwargs = log.given[0], dict(log.given[1])
            if op == 'string':
                o = cls.create_from_string(self.data, context, *args, **kwargs)
            else:
                o = cls.create_from_stream(io.BytesIO(self.data), context, *args, **kwargs)
            if given:
                ctx.eq(context.get_dict(), GIVEN[given_name], "the given context after " + what)
                if form == 'rw':                  # the caller may go on using it
                    context.update({'k1': 'changed', 'k5': 'changed', 'struct': 'changed'})
            touch(o)
            log.building = True
            ctx.eq(log.wrong, [], "arguments other than %s and %s in %s" % (args, kwargs, what))
            ctx.true(self.top.label in log.made, "constructors in " + what)
            self.check(ctx, 'read', o, GIVEN[given_name], what)
            ctx.eq(cls.write_to_string(o), self.data, "the bytes of what was read by " + what)
            self.log.take()
        elif op == 'bytes':
            data = cls.write_to_string(self.obj, context) if given else self.obj.to_bytes()
            ctx.eq(data, self.data, what)
            self.check(ctx, 'write', self.obj, given, what)
        elif op == 'write':
            stream = io.BytesIO()
            cls.write_to_stream(self.obj, stream, context)
            self.check(ctx, 'write', self.obj, given, what)
        elif op == 'repr':
            text = cls.to_repr(self.obj, context) if given else repr(self.obj)
            self.check(ctx, 'print', self.obj, given, what)
            ctx.true('top.' in text, what)
        elif op == 'fail read':
            ctx.rejects(lambda: touch(cls.create_from_string(self.data[:-1], context)), what)
            self.log.take()
        else:
            other = cls()
            ctx.rejects(lambda: cls.write_to_string(other, context), what)
            self.log.take()
        if given and op not in ('string', 'stream', 'base read'):
            ctx.eq(context.get_dict(), GIVEN[given_name], "the given context after " + what)
        self.unchanged(ctx, what)
        ctx.step()


def brief(events):
    return sorted(set("%s %s %s%s" % (op, label, dict(c), '' if s is None else ' in a %s' % type(s).__name__) for op, label, c, s in events))[:4]


def structs(node):
    if isinstance(node, StructNode):
        yield node
    for x in vars(node).values():
        for y in (x if isinstance(x, list) else [x]):
            if isinstance(y, Node):
                for z in structs(y):
                    yield z


def touch(obj):
    """Reads everything."""
    if isinstance(obj, Struct):
        for n in dir(type(obj)) + list(vars(obj)):
            if n.startswith('f') and n[1:2].isdigit():
                touch(getattr(obj, n))
    elif isinstance(obj, list):
        for x in obj:
            touch(x)


def run(case, ctx):
    expr, depth, ops, forms = case
    choices = [(op, g, f) for op in ops for g in sorted(GIVEN) for f in forms if not (g == 'none' and f != forms[0])]
    world = World(expr)
    for history in itertools.product(choices, repeat=depth):
        for op, g, f in history:
            world.run(ctx, op, g, f)
        ctx.state(repr(expr), repr(history))
    ctx.trace()
    ctx.outcome('same')


def items(own):
    """Things in a struct; with the context of the structs inside."""
    inner = ['struct', own, None, 'p', ['text', 'string']]
    leaves = ['p', 'w', ['text', 'string'], ['text', 'buffer'], 'called', 'map', 'const', 'bits', 'slices', ['opt', 'p'], ['opt', 'p', 0]]
    for x in leaves:
        yield x
    for kind in ('farr', 'varr', 'sarr'):
        for e in ('p', 'w', ['text', 'buffer'], 'called', 'map', inner, ['varr', 'p'], ['farr', inner], ['chosen', 'key', own, 'p'],
                  ['chosen', 'func', own, 'p']):
            yield [kind, e]
    yield inner
    yield ['struct', None, own, 'p', 'bits']
    yield ['struct', own, {'k3': 'base', 'k1': 'base'}, 'p']
    yield ['struct', own, None, inner, 'p', inner]
    yield ['struct', own, None, ['struct', {'k1': 'j', 'k3': 'j'}, None, inner, 'p'], 'const']
    for how in ('key', 'default', 'func', 'macro'):
        yield ['chosen', how, own, 'p']
        yield ['chosen', how, own, inner, ['chosen', how, None, 'p']]
    yield ['opt', inner]
    yield ['opt', ['varr', inner]]
    yield ['lazy', 'p']
    yield ['lazy', 'map', 'const', 'bits', 'slices', 'w']
    yield ['lazy', ['struct', own, None, 'p', ['lazy', 'p']], ['farr', ['struct', own, None, 'p']]]
    yield ['lazy', ['lazy', 'p', 'bits'], 'p']


def gen(depth, ops, forms, owns, inners, extra=()):
    def g():
        for own in owns:
            for inner in inners:
                for x in items(INNER[inner]):
                    yield [['struct', OWN[own], None, 'p', x, 'p'], depth, list(ops), list(forms)]
                    if depth == 1:
                        yield [['struct', None, OWN[own], x, 'p'], depth, list(ops), list(forms)]
    return g


def gen_pairs(few):
    def g():
        a = list(items(INNER['one']))
        for x, y in itertools.product(a, a[:few]):
            yield [['struct', OWN['two'], None, x, 'p', y], 1, ['stream', 'bytes', 'repr'], ['rw']]
    return g


# ---------------------------------------------------------------- the contexts themselves

def run_api(case, ctx):
    """Histories of the operations of contexts: copies are independent."""
    depth, first = case
    ops = ['put', 'update', 'remove', 'copy', 'copy with', 'dict', 'get']
    for history in itertools.product(ops, repeat=depth - 1):
        history = (first,) + history
        box = [(WritableContext({'a': 1}), {'a': 1})]
        for k, op in enumerate(history):
            c, m = box[-1]
            if op == 'put':
                c.put('b', k)
                m['b'] = k
            elif op == 'update':
                c.update({'a': k, 'c': k})
                m.update({'a': k, 'c': k})
            elif op == 'remove':
                if 'a' in m:
                    c.remove('a')
                    del m['a']
                else:
                    ctx.rejects(lambda: c.remove('a'), "remove in %s" % (history,))
            elif op == 'copy':
                box.append((c.writable_copy(), dict(m)))
            elif op == 'copy with':
                given = {'a': 9, 'd': k}
                box.append((c.writable_copy(given), dict(m, **given)))
                ctx.eq(given, {'a': 9, 'd': k}, "the argument")
            elif op == 'dict':
                d = c.get_dict()
                d['z'] = 1
            else:
                ctx.eq((c.get('a', 'no'), c.get('b', None)), (m.get('a', 'no'), m.get('b')), "get in %s" % (history,))
            for c, m in box:
                ctx.eq(c.get_dict(), m, "context after %s" % (history,))
            ctx.true(all(repr(k) or True for k in box), "repr")
            ctx.step()
        ctx.eq((EMPTY_CONTEXT.get_dict(), ReadOnlyContext().get_dict(), WritableContext().get_dict()), ({}, {}, {}), "empty contexts after %s" % (history,))
        w = WritableContext()
        w.put('x', 1)
        ctx.eq((EMPTY_CONTEXT.writable_copy().get_dict(), WritableContext().get_dict()), ({}, {}), "empty contexts after %s" % (history,))
        ctx.state(history)
    ctx.outcome('api')


LARGE = {'context': (64, 24)}


def spaces(tier):
    quick = tier == 'quick'
    return [
        Space('one', gen(1, OPS, ('ro', 'rw'), sorted(OWN), sorted(INNER)), run, 'every operation alone', ['same', 'rejected']),
        Space('histories', gen(2, OPS, ('rw',), ['none', 'two'], ['one']) if quick else
              gen(3, OPS[:5], ('rw',), ['none', 'two'], ['one']), run, 'histories of operations', ['same']),
        Space('pairs', gen_pairs(10 if quick else 60), run, 'pairs of items', ['same']),
        Space('api', lambda: ([4 if quick else 6, f] for f in ['put', 'update', 'remove', 'copy', 'copy with', 'dict', 'get']), run_api,
              'histories of operations of contexts', ['api', 'rejected']),
    ]
