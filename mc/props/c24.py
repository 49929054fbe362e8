"""C24: printing an object always works and shows its field values."""
import functools
import itertools
import struct
from six.moves import range
from mc.core import Space
from mc.again import struct_changes, record_changes
from mc import family, sfamily
from mc.family import Program
from mc.sfamily import StructItem, Rec, construct, parse, show
from mc.rec import record
from infi.instruct import Struct, UBInt8, UBInt16, Field, Lazy, ConstField, FixedSizeArray, VarSizeArray, BitFields, BitField
from infi.instruct.base import WritableContext, EMPTY_CONTEXT
from infi.instruct.buffer import (Buffer, bytes_ref, uint_field, be_uint_field, bytearray_field, list_field, buffer_field, str_field, float_field,
                                  uint8, len_ref, self_ref, after_ref, total_size, member_func_ref, num_ref, min_ref, max_ref, b_uint16)

ID = 'C24'
RULE = ('structs: up to three items of the grammar with every set of fields left unset, in every way to leave them unset, before and after writing, parsing '
        'and reading lazy fields, in every number format and way to ask for it; records: up to three items, every set of unset fields, fresh, packed, '
        'unpacked and after failures; values: fields that hold values they can not serialize; errors: what a failed operation says')
ASSUMPTIONS = ['the form is Name(field=value, ...), as it is in the documentation of the tests']

NOT_SET = '<not set>'


# ---------------------------------------------------------------- the same object with other values

def run_again(case, ctx):
    side, what = case[0], case[1:]

    def look(obj, cls, data, fresh, what):
        if '<lazy>' in repr(obj):
            obj.to_bytes()      # reads all of them
        if side == 'record':    # sets what's computed
            obj.pack()
            fresh.pack()
        ctx.eq(repr(obj), repr(fresh), "printed: " + what)
    if side == 'struct':
        struct_changes(what, look, ctx)
    else:
        record_changes(*(what[0][:3] + [look, ctx, what[0][3]]))


def gen_again(tier):
    for i in sfamily.ALL:
        for j in [[], ['u8'], ['vstr']] if tier == 'quick' else [[x] for x in sfamily.ALL]:
            yield ['struct', i] + j
    for kinds, style, names in family.programs([0, 1], styles=['after'], names=['up']):
        for k in range(len(list(Program(kinds, style, names).values()))):
            yield ['record', [kinds, style, names, k]]


# ---------------------------------------------------------------- what is expected

def show_value(t, v, fmt, lazy=False):
    """The printed form of a value in a place of type t."""
    if v is None:
        return NOT_SET
    if isinstance(t, sfamily.Number):
        return fmt[0] % v if isinstance(v, int) else fmt[1] % v
    if isinstance(t, sfamily.Array):
        return '[ ' + ', '.join(show_value(t.element, x, fmt, lazy) for x in v) + ' ]'
    if isinstance(t, (sfamily.StructItem, sfamily.Keyed, sfamily.KeyedByField)):
        s = t if isinstance(t, sfamily.StructItem) else next(s for s in t.structs if s.define() is v.cls)
        return struct_text(s, v.expected, fmt, lazy)
    if isinstance(t, sfamily.Adapted):
        return '%s.Fixed3(x=%d, y=%d, z=%d)' % (sfamily.Fixed3.__module__, v.values['x'], v.values['y'], v.values['z'])
    return repr(v)


def struct_text(s, values, fmt, lazy=False, name=None):
    """values: of the fields by name; those that are missing or None are not set."""
    return '%s(%s)' % (name or s.cls_name, ', '.join(x for n, i in zip(s.names('f'), s.items) for x in parts(i, n, values, fmt, lazy)))


def parts(item, name, values, fmt, lazy):
    def field(n, t):
        return '%s=%s' % (n, show_value(t, values.get(n), fmt, lazy))

    def number(n):
        v = values.get(n)
        return '%s=%s' % (n, NOT_SET if v is None else fmt[0] % v)
    if isinstance(item, sfamily.LazyItem):
        inner = [x for n, i in zip(item.names(name + '_'), item.items) for x in parts(i, n, values, fmt, lazy)]
        if lazy:
            # anonymous parts are as always
            return [x.split('=')[0] + '=<lazy>' if '=' in x else x for x in inner]
        return inner
    if isinstance(item, sfamily.Optional):
        return [number(name + '_flag'), field(name, item.inner)]
    if isinstance(item, sfamily.Const):
        return ['%s=%s (const)' % (name, show_value(item.inner, item.value, fmt))]
    if isinstance(item, sfamily.BitGroup):
        out = []
        for k, w in enumerate(item.widths):
            out.append(number('%s_%d' % (name, k)) if w > 0 else '<%d bits padding>' % -w)
        return out
    if isinstance(item, sfamily.Positional):
        return [number('%s_%d' % (name, k)) for k in range(len(item.layout))]
    if isinstance(item, sfamily.Padding):
        return ['<%d bytes padding>' % item.n]
    if isinstance(item, sfamily.Pointer):
        return [number(name + '_len'), number(name + '_gap'), '%s=%s' % (name, NOT_SET if values.get(name) is None else repr(values[name]))]
    if isinstance(item, sfamily.Pointers):
        return [number(name + '_len'), '%s=%s' % (name, NOT_SET if values.get(name) is None else '[ %s ]' % ', '.join(map(repr, values[name])))]
    if isinstance(item, sfamily.KeyedByField):
        return [number(name + '_key'), field(name, item)]
    return [field(name, item)]


FORMATS = {'plain': ('%d', '%f'), 'hex': ('0x%x', '%f'), 'both': ('<%04d>', '%.1e')}


def context_of(fmt):
    d = {}
    if fmt[0] != '%d':
        d['int_repr_format'] = fmt[0]
    if fmt[1] != '%f':
        d['float_repr_format'] = fmt[1]
    return d


def snapshot(v, depth=6):
    """Everything that can be seen of an object without using its fields' descriptors."""
    if isinstance(v, (Struct, Buffer)):
        return (type(v).__name__, id(v), tuple((k, snapshot(x, depth - 1) if depth else None) for k, x in sorted(vars(v).items())))
    if isinstance(v, (list, tuple)):
        return (type(v).__name__, id(v), tuple(snapshot(x, depth - 1) for x in v))
    if isinstance(v, dict):
        return (id(v), tuple(sorted((repr(k), repr(x)) for k, x in v.items())))
    if isinstance(v, bytearray):
        return (id(v), bytes(v))
    return (type(v).__name__, repr(v))


class Top(StructItem):
    pass


def printed(ctx, obj, want, what, fmt='plain', how='class'):
    """The printed form is right, in every way to ask for it, and asking changes nothing."""
    before = snapshot(obj)
    cls = type(obj)
    context = context_of(FORMATS[fmt])
    if how == 'class':
        texts = [repr(obj), cls.to_repr(obj), '%r' % (obj,), repr([obj])[1:-1]]
    else:
        given = WritableContext(dict(context))
        texts = [cls.to_repr(obj, given), Struct.to_repr(obj, given)]
        ctx.eq(given.get_dict(), context, "context after printing %s" % what)
    for t in texts:
        if t != want:
            ctx.fail("printed %s: %s instead of %s", what, t, want)
    ctx.true(snapshot(obj) == before, "printing changed %s" % what)
    ctx.step(len(texts))


def subsets(names, most=6):
    names = sorted(names)
    if len(names) <= most:
        for bits in range(1 << len(names)):
            yield [n for k, n in enumerate(names) if bits >> k & 1]
    else:
        for n in range(2):
            for c in itertools.combinations(names, n):
                yield list(c)
                yield [x for x in names if x not in c]


def run_struct(case, ctx):
    items, fmt, how, limit = case
    s = Top(items, name='Top')
    f = FORMATS[fmt]
    cls = s.define(**({'_context_': context_of(f)} if how == 'class' and fmt != 'plain' else {}))
    combos = s.few()
    for combo in combos:
        spec = s.spec(combo)
        obj = construct(spec)
        full = struct_text(s, spec.expected, f)
        printed(ctx, obj, full, "%s %s" % (case, combo), fmt, how)
        data = obj.to_bytes()
        printed(ctx, obj, full, "%s %s after writing" % (case, combo), fmt, how)
        back = cls.create_from_string(data)
        printed(ctx, back, struct_text(s, spec.expected, f, lazy=True), "%s %s after parsing" % (case, combo), fmt, how)
        ctx.true(sfamily.same(back, spec), "%s %s parsed" % (case, combo))
        printed(ctx, back, full, "%s %s after reading" % (case, combo), fmt, how)
        # one of them changed
        for n, v in spec.expected.items():
            if isinstance(v, int) and n in spec.values:
                setattr(back, n, 3)
                printed(ctx, back, struct_text(s, dict(spec.expected, **{n: 3}), f), "%s %s with 3" % (case, combo), fmt, how)
                setattr(back, n, v)
        ctx.outcome('full')
    spec = s.spec(combos[-1])
    names = sorted(spec.values)
    for missing in subsets(names, limit):
        expected = dict((n, v) for n, v in spec.expected.items() if n not in missing)
        want = struct_text(s, expected, f)
        given = dict((n, construct(v)) for n, v in spec.values.items() if n not in missing)
        what = "%s without %s" % (case, missing)
        printed(ctx, cls(**given), want, what, fmt, how)
        printed(ctx, cls(**dict(given, **dict((n, None) for n in missing))), want, what + " (None)", fmt, how)
        o = cls()
        for n, v in given.items():
            setattr(o, n, v)
        printed(ctx, o, want, what + " (assigned)", fmt, how)
        o = construct(spec)
        for n in missing:
            setattr(o, n, None)
        printed(ctx, o, want, what + " (removed)", fmt, how)
        o = construct(spec)
        try:
            for n in missing:
                delattr(o, n)
        except AttributeError:
            pass                      # not every field can be deleted
        else:
            printed(ctx, o, want, what + " (deleted)", fmt, how)
        o = cls.create_from_string(construct(spec).to_bytes())
        if missing:
            for n in missing:
                setattr(o, n, None)
            if not any(isinstance(i, sfamily.LazyItem) for i in s.items):
                printed(ctx, o, want, what + " (removed after parsing)", fmt, how)
            else:
                repr(o)
            ctx.outcome('unset')
    ctx.state(items, fmt, how)
    ctx.trace()


# a place for a struct inside another one

PLACES = {
    'field': (lambda c: Field('x', c), lambda o: o, lambda t: t),
    'default': (lambda c: Field('x', c, None), lambda o: o, lambda t: t),
    'farr': (lambda c: FixedSizeArray('x', 2, c), lambda o: [o, o], lambda t: '[ %s, %s ]' % (t, t)),
    'varr': (lambda c: VarSizeArray('x', UBInt8, c), lambda o: [o], lambda t: '[ %s ]' % t),
    'varr0': (lambda c: VarSizeArray('x', UBInt8, c), lambda o: [], lambda t: '[  ]'),
    'two': (lambda c: VarSizeArray('x', UBInt8, c), lambda o: [o, o, o], lambda t: '[ %s, %s, %s ]' % (t, t, t)),
}


def run_nested(case, ctx):
    """Formats of the outer struct apply to the inner ones, its own where the outer one has none."""
    items, place, inner_fmt, outer_fmt, asked, derived = case
    s = Top(items, name='Inner')
    inner_context = context_of(FORMATS[inner_fmt])
    inner = s.define(**({'_context_': inner_context} if inner_context else {}))
    if derived:
        inner = type(Struct)('Derived', (inner,), {'__module__': 'case'})
    make, put, wrap = PLACES[place]
    outer_context = context_of(FORMATS[outer_fmt])
    attrs = {'_fields_': [UBInt16('a'), make(inner), UBInt8('z')], '__module__': 'case'}
    if outer_context:
        attrs['_context_'] = outer_context
    outer = type(Struct)('Outer', (Struct,), attrs)
    if derived:
        outer = type(Struct)('Outest', (outer,), {'__module__': 'case'})
    given = context_of(FORMATS[asked])

    def fmt(*contexts):
        out = {'int_repr_format': '%d', 'float_repr_format': '%f'}
        for c in contexts:
            out.update(c)
        return out['int_repr_format'], out['float_repr_format']
    fo, fi = fmt(outer_context, given), fmt(inner_context, outer_context, given)
    for combo in s.few():
        spec = s.spec(combo)
        for missing in subsets(sorted(spec.values), 2):
            values = dict((n, construct(v)) for n, v in spec.values.items() if n not in missing)
            expected = dict((n, v) for n, v in spec.expected.items() if n not in missing)
            text = struct_text(s, expected, fi, name='Derived' if derived else 'Inner')
            o = outer(a=258, x=put(inner(**values)))
            want = '%s(a=%s, x=%s, z=<not set>)' % ('Outest' if derived else 'Outer', fo[0] % 258, wrap(text))
            printed(ctx, o, want, "%s without %s" % (case, missing), asked, 'class' if asked == 'plain' else 'given')
            # what was printed with a format doesn't keep it
            if asked != 'plain':
                f2, f3 = fmt(outer_context), fmt(inner_context, outer_context)
                text = struct_text(s, expected, f3, name='Derived' if derived else 'Inner')
                ctx.eq(repr(o), '%s(a=%s, x=%s, z=<not set>)' % ('Outest' if derived else 'Outer', f2[0] % 258, wrap(text)), "%s again" % (case,))
    ctx.eq(repr(outer(a=1, z=2)), '%s(a=%s, x=<not set>, z=%s)' % ('Outest' if derived else 'Outer', fmt(outer_context)[0] % 1, fmt(outer_context)[0] % 2),
           "%s without the inner one" % (case,))
    ctx.state(*case)
    ctx.trace()
    ctx.outcome(place)


# ---------------------------------------------------------------- values that can't be serialized

BAD = {'text': 'odd text', 'bytes': b'\0\xff', 'none in a list': [None, 1], 'number': 12345678901234567890, 'negative': -5, 'float': 2.5, 'object': Ellipsis, 'tuple': (1, 2),
       'empty tuple': (), 'dict': {'a': None}, 'list': [], 'nested': [[1], None], 'true': True, 'class': int}


def run_bad(case, ctx):
    item, bad, fmt = case
    s = Top(['u8', item, 'vstr'], name='Top')
    f = FORMATS[fmt]
    cls = s.define(**({'_context_': context_of(f)} if fmt != 'plain' else {}))
    spec = s.spec(s.few()[-1])
    first, last = 'f0=' + f[0] % spec.expected['f0'], 'f2=%r' % (spec.expected['f2'],)
    for name in sorted(spec.values):
        if not name.startswith('f1'):
            continue
        o = construct(spec)
        setattr(o, name, BAD[bad])
        before = snapshot(o)
        text = repr(o)
        ctx.true(text.startswith('Top(' + first + ', ') and text.endswith(', ' + last + ')'), "%s: the other fields in %s" % (case, text))
        ctx.true(name + '=' in text, "%s: %s is not in %s" % (case, name, text))
        ctx.true(snapshot(o) == before, "printing changed %s" % (case,))
        v = BAD[bad]
        shown = [repr(v)]
        if isinstance(v, (int, float)) and not isinstance(v, type):
            shown += [x % v for x in f]
        if isinstance(v, (list, tuple, dict)) or isinstance(v, bytes) or isinstance(v, str):
            shown = shown + ['[ ']
        ctx.true(any(name + '=' + x in text for x in shown), "%s: the value in %s" % (case, text))
        # inside another struct, and in an array
        outer = type(Struct)('Outer', (Struct,), {'_fields_': [Field('i', cls), VarSizeArray('l', UBInt8, cls)], '__module__': 'case'})
        p = outer(i=o, l=[o])
        text2 = repr(p)
        ctx.true(text2 == 'Outer(i=%s, l=[ %s ])' % (text, text), "%s: printed in another struct: %s" % (case, text2))
        ctx.step(2)
    ctx.state(*case)
    ctx.trace()
    ctx.outcome(bad)


# ---------------------------------------------------------------- inherited fields, redefined fields

def run_inherited(case, ctx):
    """Structs and records with bases: every field is shown once."""
    kind, own, redefine, depth, missing = case
    values = dict((n, 10 + k) for k, n in enumerate(['a', 'b', 'c', 'd', 'e']))
    if kind == 'struct':
        cls = type(Struct)('Base', (Struct,), {'_fields_': [UBInt8('a'), UBInt8('b')], '__module__': 'case'})
        names = ['a', 'b']
        for k in range(depth):
            attrs = {'__module__': 'case'}
            if own:
                names = names + ['cde'[k]]
                attrs['_fields_'] = cls._fields_ + [UBInt8('cde'[k])]
            if redefine:
                attrs['_context_'] = {'int_repr_format': '0x%02x'}
            cls = type(Struct)('Derived%d' % k, (cls,), attrs)
        given = dict((n, values[n]) for n in names if n != missing)
        o = cls(**given)
        fmt = '0x%02x' if redefine and depth else '%d'
        want = '%s(%s)' % (cls.__name__, ', '.join('%s=%s' % (n, fmt % given[n] if n in given else NOT_SET) for n in names))
        printed(ctx, o, want, "%s" % (case,))
    else:
        cls = record({'a': uint_field(where=bytes_ref[0]), 'b': uint_field(where=bytes_ref[1])})
        names = ['a', 'b']
        for k in range(depth):
            attrs = {}
            if own:
                names = names + ['cde'[k]]
                attrs['cde'[k]] = uint_field(where=bytes_ref[2 + k])
            if redefine:
                attrs['b'] = bytearray_field(where=bytes_ref[10 + k:12 + k])
            cls = record(attrs, (cls,), 'Derived%d' % k)
        given = dict((n, values[n]) for n in names if n != missing)
        if redefine and depth and 'b' in given:
            given['b'] = bytearray(b'xy')
        o = cls(**given)
        check_record(ctx, o, dict((n, given.get(n)) for n in names), "%s" % (case,))
        if missing not in names:
            o2 = cls()
            o2.unpack(bytes(o.pack()))
            check_record(ctx, o2, given, "%s unpacked" % (case,))
    ctx.state(*case)
    ctx.trace()
    ctx.outcome(kind)


# ---------------------------------------------------------------- records

def check_record(ctx, o, values, what):
    """values: of all fields"""
    before = snapshot(o)
    prefix = '%s.%s(' % (type(o).__module__, type(o).__name__)
    for text in (repr(o), '%r' % (o,), repr([o])[1:-1], str(o)):
        ctx.true(text.startswith(prefix) and text.endswith(')'), "%s: the type in %s" % (what, text))
        body = text[len(prefix):-1]
        pieces = ['%s=%r' % (n, v) for n, v in values.items()]
        ctx.true(len(body) == sum(map(len, pieces)) + 2 * max(len(pieces) - 1, 0), "%s: %s should show %s" % (what, text, values))
        rest = ', ' + body
        for p in sorted(pieces, key=len, reverse=True):
            ctx.true(', ' + p in rest, "%s: %s should show %s" % (what, text, p))
            rest = rest.replace(', ' + p, '', 1)
        ctx.eq(rest, '', "%s: what else is in %s" % (what, text))
        ctx.step()
    ctx.true(snapshot(o) == before, "%s: printing changed it" % what)


def all_names(cls):
    names = set()
    for c in cls.__mro__:
        names.update(f.attr_name() for f in c.__dict__.get('__fields__', []))
    return names


def run_record(case, ctx):
    kinds, style, names, derived = case
    p = Program(kinds, style, names)
    cls = p.define()
    fields = all_names(cls)
    if derived:
        cls = record({}, (cls,), 'Derived')

    def state(o):
        return dict((n, getattr(o, n)) for n in fields)
    for combo in p.values():
        values = p.set(combo)
        known = p.fields(combo)
        for missing in subsets(sorted(values), 3):
            given = dict((n, v) for n, v in values.items() if n not in missing)
            o = cls(**given)
            what = "%s without %s" % (case, missing)
            check_record(ctx, o, dict((n, given.get(n)) for n in fields), what)
            for n in missing:
                setattr(o, n, None)
            check_record(ctx, o, dict((n, given.get(n)) for n in fields), what + " (None)")
            if missing:
                try:
                    o.pack()
                except Exception:
                    ctx.outcome('failed')
                check_record(ctx, o, state(o), what + " after packing")
                for n in given:
                    ctx.eq(getattr(o, n), given[n], what)
            else:
                data = bytes(o.pack())
                check_record(ctx, o, dict(state(o), **known), what + " packed")
                for size in sorted({len(data), 0, len(data) // 2, len(data) - 1} - {-1}):
                    back = cls()
                    try:
                        back.unpack(data[:size])
                    except Exception:
                        ctx.outcome('failed')
                    check_record(ctx, back, dict(state(back), **known) if size == len(data) else state(back), what + " unpacked from %d bytes" % size)
        ctx.trace()
    ctx.state(*case)
    ctx.outcome('ok')


def run_odd_record(case, ctx):
    """Any value in any field."""
    kind, bad = case
    p = Program([kind])
    cls = p.define()
    fields = all_names(cls)
    for n in sorted(fields):
        for derived in (0, 1):
            o = (record({}, (cls,), 'Derived') if derived else cls)(**{n: BAD[bad]})
            check_record(ctx, o, dict((x, BAD[bad] if x == n else None) for x in fields), "%s" % (case,))
    # in another record
    outer = record({'i': buffer_field(cls, where=bytes_ref[0:]), 'h': uint_field(where=bytes_ref[0])})
    o = cls(**{sorted(fields)[0]: BAD[bad]})
    check_record(ctx, outer(i=o), dict(i=o, h=None), "%s in a record" % (case,))
    check_record(ctx, outer(i=[o, None]), dict(i=[o, None], h=None), "%s in a list in a record" % (case,))
    ctx.state(*case)
    ctx.trace()
    ctx.outcome(bad)


# ---------------------------------------------------------------- what errors say

def run_errors(case, ctx):
    """The error of a failed operation names the field and the class, and prints everything it shows."""
    kinds, style, names = case
    p = Program(kinds, style, names)
    cls = p.define()
    combo = list(p.values())[-1]
    values = p.set(combo)
    data = bytes(cls(**values).pack())

    def check(e, what, field=None):
        text = str(e)
        ctx.true('repr error' not in text, "%s: %s" % (what, text))
        ctx.true(field is None or repr(field) in text, "%s: field %s is not named in %s" % (what, field, text))
        ctx.true('Rec' in text, "%s: the class is not named in %s" % (what, text))
        ctx.step()
    for n in sorted(values):
        for bad in (object(), None):
            o = cls(**dict(values, **{n: bad}))
            try:
                o.pack()
            except Exception as e:
                check(e, "%s with a bad %s" % (case, n))
                ctx.outcome('pack')
    for size in range(len(data)):
        try:
            cls().unpack(data[:size])
        except Exception as e:
            check(e, "%s from %d bytes" % (case, size))
            ctx.outcome('unpack')
    ctx.state(*case)
    ctx.trace()

# ---------------------------------------------------------------- errors with every kind of reference

class Inner(Buffer):
    a = uint_field(where=bytes_ref[0])


class CountFunctor(object):
    def __call__(self, obj, *args):
        return 2


EXPRESSIONS = ('const', 'field', 'self', 'after', 'after open', 'len', 'len self', 'len name', 'total', 'num', 'func', 'func args', 'func kwargs', 'method', 'partial', 'builtin', 'name func',
               'min', 'max', 'n + 1', '1 + n', 'n - 1', '9 - n', 'n * 2', 'n // 2', '8 // n', 'n / 2', '-n', 'n > 1', 'n < 9', 'n == 2', 'n != 0', 'n >= 2', 'n <= 9')
ROLES = ('byte', 'start', 'stop', 'open', 'sum', 'list', 'bits', 'bit slice', 'bits of slice', 'count', 'size', 'set before', 'set after', 'pack if', 'unpack if', 'unpack after', 'selector')
FAILURES = ('value', 'none', 'cut', 'func', 'cycle')


def run_references(case, ctx):
    """x is in a place (or count, size, condition...) given by an expression; something fails: the error shows the expression."""
    kind, role, failing = case
    attrs = {}
    n = attrs['n'] = be_uint_field(where=bytes_ref[0])
    d = attrs['d'] = bytearray_field(where=bytes_ref[1:3])
    attrs['o'] = bytearray_field(where=bytes_ref[40:])
    broken = [False]

    def two(self, *args, **kwargs):
        if broken[0]:
            raise ZeroDivisionError('two')
        return 2
    attrs['two'] = two
    e = {'const': lambda: 2, 'field': lambda: n, 'self': lambda: num_ref(self_ref.n), 'after': lambda: after_ref(n), 'after open': lambda: after_ref(d), 'len': lambda: len_ref(d),
         'len self': lambda: len_ref(self_ref.d), 'len name': lambda: len_ref('d'), 'total': lambda: total_size, 'num': lambda: num_ref('n'),
         'func': lambda: num_ref(member_func_ref(two)), 'func args': lambda: num_ref(self_ref.two(n, 1)), 'func kwargs': lambda: num_ref(self_ref.two(k=n)),
         'method': lambda: num_ref(member_func_ref(lambda self, *a: two(self))), 'partial': lambda: num_ref(member_func_ref(functools.partial(two))),
         'builtin': lambda: num_ref(member_func_ref(CountFunctor())), 'name func': lambda: num_ref(self_ref.two()),
         'min': lambda: min_ref(n, 5), 'max': lambda: max_ref(n, 1)}.get(kind) or (lambda: eval(kind, {'n': n}))
    try:
        e = e()
    except (TypeError, AttributeError, AssertionError):
        ctx.outcome('not defined')
        return
    where = {'byte': lambda: bytes_ref[e], 'start': lambda: bytes_ref[e:9], 'stop': lambda: bytes_ref[5:e + 7], 'open': lambda: bytes_ref[e:], 'sum': lambda: bytes_ref[8:9] + bytes_ref[e],
             'list': lambda: bytes_ref[8, e], 'bits': lambda: bytes_ref[8].bits[e], 'bit slice': lambda: bytes_ref[8].bits[e:4], 'bits of slice': lambda: bytes_ref[8:e + 8].bits[0:4],
             'open bits': lambda: bytes_ref[8:].bits[0:e]}.get(role, lambda: bytes_ref[8:10])
    kw, make = {}, uint_field
    if role == 'count':
        make, kw = list_field, dict(type=Inner, n=e)
    elif role == 'size':
        make, kw = list_field, dict(type=b_uint16, n=e - 1)
    elif role == 'set before':
        kw = dict(set_before_pack=e)
    elif role == 'set after':
        kw = dict(set_after_unpack=e)
    elif role == 'pack if':
        kw = dict(pack_if=e)
    elif role == 'unpack if':
        kw = dict(unpack_if=e)
    elif role == 'unpack after':
        kw = dict(unpack_after=e if not isinstance(e, int) else n)
    elif role == 'selector':
        def choose(obj, buffer, **kwargs):
            if broken[0]:
                raise ZeroDivisionError('choose')
            return Inner
        make, kw = buffer_field, dict(type=Inner, unpack_selector=choose)
    if failing == 'cycle':
        attrs['n'] = n = be_uint_field(where=bytes_ref[num_ref(self_ref.x)])
    try:
        attrs['x'] = make(where=where(), **kw)
    except (TypeError, AttributeError, AssertionError):
        ctx.outcome('not defined')
        return
    values = dict(n=2, d=bytearray(b'ab'), o=bytearray(b'o'), x={'count': lambda: [Inner(a=1), Inner(a=2)], 'size': lambda: [1], 'selector': lambda: Inner(a=1)}.get(role, lambda: 1)())

    def check(error, what, fields):
        text = str(error)
        for t in (text, repr(error)):
            ctx.true('repr error' not in t, "%s: %s" % (what, t))
        ctx.true('R' in text, "%s: the class is not named in %s" % (what, text))
        ctx.true(not fields or any(repr(f) in text for f in fields), "%s: none of the fields %s is named in %s" % (what, fields, text))
        ctx.step()
    try:
        cls = type(Buffer)('R', (Buffer,), attrs)
    except Exception as error:
        check(error, "%s defined" % (case,), ())
        ctx.outcome('defined')
        return
    data = None
    if failing != 'cycle':
        try:
            data = bytes(cls(**values).pack())
        except Exception as error:
            check(error, "%s packed" % (case,), 'x')
    if failing in ('value', 'none'):
        for f in ('n', 'x', 'd'):
            v = {'value': object(), 'none': None}[failing]
            error = failure(lambda: cls(**dict(values, **{f: v})).pack())
            if error is not None:
                check(error, "%s packed with a bad %s" % (case, f), 'nxdo')
                ctx.outcome('pack')
    elif failing in ('func', 'cycle'):
        broken[0] = failing == 'func'
        error = failure(lambda: cls(**values).pack())
        if error is not None:
            check(error, "%s packed" % (case,), 'nxdo')
            ctx.outcome('pack')
        error = failure(lambda: cls().unpack(data or bytes(bytearray(range(64)))))
        if error is not None:
            check(error, "%s unpacked" % (case,), 'nxdo')
            ctx.outcome('unpack')
    else:
        data = data or bytes(bytearray(range(64)))
        for size in range(12):
            for first in (2, 0, 255):
                error = failure(lambda: cls().unpack((bytes(bytearray([first])) + data[1:])[:size]))
                if error is not None:
                    check(error, "%s unpacked from %d bytes" % (case, size), 'nxdo')
                    ctx.outcome('unpack')
    ctx.state(*case)
    ctx.trace()


def failure(func):
    try:
        func()
    except Exception as e:
        return e


def gen_structs(tier):
    quick = tier == 'quick'
    alphabet = sfamily.ALL if not quick else sfamily.ALL
    few = ['u8', 'f32', 'vstr', ['opt', 'be16'], ['const', 'u8'], ['bits', [1, -2, 9, 4]], ['posbits', 0], ['pad', 3], 'ptr', ['lazy', ['u8', 'f64']],
           ['varr', 'be16'], ['struct', ['u8', 'ptr']], ['sel', ['u8'], ['vstr']]]

    def g():
        for item in alphabet:
            for fmt in sorted(FORMATS):
                for how in ('class', 'given'):
                    yield [[item], fmt, how, 6]
        for items in itertools.product(few, repeat=2):
            for fmt, how in (('plain', 'class'), ('both', 'class'), ('both', 'given')):
                yield [list(items), fmt, how, 4]
        if not quick:
            for items in itertools.product(alphabet, repeat=2):
                yield [list(items), 'both', 'class', 4]
            for items in itertools.product(few, repeat=3):
                yield [list(items), 'both', 'given', 4]
    return g


NESTED_ITEMS = ['u8', 'f32', 'vstr', ['opt', 'be16'], ['const', 'u8'], ['bits', [1, -2, 9, 4]], ['posbits', 0], ['lazy', ['u8', 'f64']], ['varr', 'be16'],
                ['struct', ['u8', 'f64']], ['sel', ['u8'], ['vstr']], ['pad', 3]]


def gen_nested(tier):
    def g():
        for items in itertools.chain(((i,) for i in NESTED_ITEMS), itertools.product(NESTED_ITEMS, repeat=2) if tier != 'quick' else ()):
            for place in sorted(PLACES):
                for inner, outer, asked in itertools.product(sorted(FORMATS), repeat=3):
                    for derived in (0, 1):
                        yield [list(items), place, inner, outer, asked, derived]
    return g


def gen_inherited():
    for kind in ('struct', 'record'):
        for own, redefine in itertools.product((0, 1), repeat=2):
            for depth in range(4):
                for missing in ('a', 'b', 'c', 'd', 'e', None):
                    yield [kind, own, redefine, depth, missing]


def gen_records(tier):
    quick = tier == 'quick'
    kinds = [c.kind for c in family.STATIC + family.DYNAMIC + family.TAILS]
    inner = [c.kind for c in family.STATIC + family.DYNAMIC]

    def g():
        for kind in kinds:
            for names in family.NAMES:
                for derived in (0, 1):
                    yield [[kind], 'after', names, derived]
        for a in inner if not quick else ['u8', 'flags', 'bytes', 'nested', 'func']:
            for b in kinds:
                for names in family.NAMES if not quick else ['up', 'down']:
                    yield [[a, b], 'after', names, 0]
    return g


def gen_errors(tier):
    kinds = [c.kind for c in family.STATIC + family.DYNAMIC + family.TAILS]
    inner = [c.kind for c in family.STATIC + family.DYNAMIC]

    def g():
        for kind in kinds:
            for names in family.NAMES:
                yield [[kind], 'after', names]
        for a in inner if tier != 'quick' else ['u8', 'bytes', 'func', 'clamped']:
            for b in kinds:
                for style in family.STYLES:
                    yield [[a, b], style, 'up']
    return g


LARGE = {'fields': (512, 9), 'depth': (32, 9)}


def spaces(tier):
    return [
        Space('inherited', gen_inherited, run_inherited, 'inherited fields', ['struct', 'record']),
        Space('again', lambda: gen_again(tier), run_again, 'the same object with other values', ['changed']),
        Space('structs', gen_structs(tier), run_struct, 'structs in all states', ['full', 'unset']),
        Space('nested', gen_nested(tier), run_nested, 'formats of nested structs', sorted(PLACES)),
        Space('bad', lambda: ([i, b, f] for i in sfamily.ALL for b in sorted(BAD) for f in ('plain', 'both')), run_bad, 'values that can not be serialized', sorted(BAD)),
        Space('records', gen_records(tier), run_record, 'records in all states', ['ok', 'failed']),
        Space('odd records', lambda: ([c.kind, b] for c in family.STATIC + family.DYNAMIC + family.TAILS for b in sorted(BAD)), run_odd_record,
              'records with any value', sorted(BAD)),
        Space('errors', gen_errors(tier), run_errors, 'messages of errors', ['pack', 'unpack']),
        Space('references', lambda: ([e, r, f] for e in EXPRESSIONS for r in ROLES for f in FAILURES), run_references,
              'messages of errors about every kind of reference', ['pack', 'unpack']),
    ]
