"""C10: records are independent, no operation leaks into another."""
import itertools
from array import array
import struct
import threading
from six.moves import range
from mc.core import Space
from mc import points
points.install()
from mc.points import Places
from mc import family, sfamily
from mc.family import Program
from mc.sfamily import StructItem, Rec, construct, same
from mc.rec import record
from mc.again import struct_copies, record_copies
from infi.instruct.buffer import (Buffer, bytes_ref, uint_field, be_uint_field, list_field, buffer_field, bytearray_field, json_field,
                                  uint8, after_ref, num_ref, self_ref, member_func_ref)
from infi.instruct import Struct, UBInt8, UBInt16, BFloat32, BitFields, BitField, Field, Lazy, VarSizeBuffer, FixedSizeArray, VarSizeArray
from infi.instruct.base import Marshal, MinMax, WritableContext, EMPTY_CONTEXT
from infi.instruct.struct.optional import OptionalField
from infi.instruct.struct_macros import ReadPointer, SelectStructByFunc

ID = 'C10'
RULE = ('schedules: two operations on distinct instances of one, related or unrelated definitions in two real threads; the second one runs to its end at '
        'every place of the first one (one preemption), and every pair of places of both (two preemptions); histories: all sequences of operations on two '
        'instances up to a depth; hooks: operations on other records executed in every user function an operation calls; shared data: everything that is '
        'given to or returned by an operation is modified afterwards; faults: an operation is ended by an error at every place')
ASSUMPTIONS = ['a place where threads switch is between two lines of the library (quick: the first times a line is reached in an operation)',
               'the values of computed fields are not specified until the record was packed or unpacked']

# ---------------------------------------------------------------- definitions and operations

class Record(object):
    """A record definition: the real class, and what's expected of it."""
    stream = False

    def __init__(self, kinds, style='after', names='up', base=None):
        self.p = Program(kinds, style, names)
        self.cls = self.p.define() if base is None else record({'__module__': 'case'}, (base.cls,), 'Derived')
        self.count = min(2, len(list(self.p.values())))
        self.codes = [self.p.encode(self.combo(k)) for k in range(self.count)]
        self.reprs = {}

    def combo(self, k):
        return list(self.p.values())[-1 if k else 0]

    def values(self, k):
        return self.p.set(self.combo(k))

    def known(self, k):
        return self.p.fields(self.combo(k))

    def new(self, k):
        return self.cls(**self.values(k))

    def assign(self, obj, k):
        for name, v in self.values(k).items():
            setattr(obj, name, v)

    def write(self, obj):
        return bytes(obj.pack())

    def parse(self, data, obj=None):
        obj = self.cls() if obj is None else obj
        obj.unpack(data)
        return obj

    def size(self, obj):
        return -(-obj.calc_byte_size() // 1)

    def differs(self, obj, expected):
        for name, v in expected.items():
            got = getattr(obj, name)
            if type(got) != type(v) or got != v:
                return "%s is %r instead of %r" % (name, got, v)

    def spoil(self, obj):
        setattr(obj, sorted(self.values(0))[-1], object())

    def redefine(self):
        return Record(self.p.kinds, self.p.style, self.p.names)

    def shorter(self, data):
        return data[:-1] if self.p.bounded and data else None


def bounds(d):
    try:
        m = d.cls.min_max_sizeof()
        return m.min, m.max
    except NotImplementedError:
        return None


class Stream(object):
    """The same of a struct."""
    stream = True

    def __init__(self, items, base=None):
        self.items = items
        self.s = StructItem(items, name='Top') if base is None else base.s
        self.cls = self.s.define() if base is None else type(Struct)('Derived', (base.cls,), {'__module__': 'case'})
        self.combos = self.s.few()
        self.bounds = bounds(self)
        self.count = min(2, len(self.combos))
        self.codes = [sfamily.Fields.encode(self.s, self.combo(k)) for k in range(self.count)]
        self.reprs = {}

    def combo(self, k):
        return self.combos[-1 if k else 0]

    def values(self, k):
        return dict((n, construct(v)) for n, v in self.s.spec(self.combo(k)).values.items())

    def known(self, k):
        return self.s.spec(self.combo(k)).expected

    def new(self, k):
        return self.cls(**self.values(k))

    def assign(self, obj, k):
        for name, v in self.values(k).items():
            setattr(obj, name, v)

    def write(self, obj):
        return self.cls.write_to_string(obj)

    def parse(self, data, obj=None):
        return self.cls.create_from_string(data)

    def size(self, obj):
        return self.cls.sizeof(obj)

    def differs(self, obj, expected):
        for name, v in expected.items():
            got = getattr(obj, name)
            if not same(got, v):
                return "%s is %s instead of %s" % (name, sfamily.show(got), v)

    def spoil(self, obj):
        names = sorted(self.values(0))
        setattr(obj, names[-1], object())

    def redefine(self):
        return Stream(self.items)

    def shorter(self, data):
        return data[:-1] if data else None


RECORDS = {
    'mixed': ['bytes', 'u8', 'pairs'],
    'fields': ['u8', 'flags', 'be16'],
    'text': ['text', 'str4', 'list16'],
    'tail': ['list16', 'bytes...'],
    'blobs': ['nested', 'blobs...'],
    'json': ['u8', 'json...'],
    'total': ['u8', 'total'],
    'func': ['func', 'clamped'],
    'parts': ['split', 'bytes+2'],
}
STRUCTS = {
    'plain': ['u8', 'sle32', 'vstr'],
    'bits': [['bits', [3, 5]], ['posbits', 0]],
    'arrays': [['varr', 'be16'], ['sarr', 'vstr'], ['farr', 2, 'u8']],
    'nested': [['struct', ['ptr', 'u8']], ['varr', ['struct', ['u8', 'ptr']]]],
    'optional': [['opt', 'vstr'], ['const', 'u8'], 'map'],
    'lazy': [['lazy', ['u8', 'sle32']], ['lazy', ['be16', ['struct', ['u8', 'be16']], ['bits', [3, 5]]]]],
    'chosen': [['sel', ['u8'], ['vstr']], ['fsel', 2, ['vstr'], ['u8']]],
    'pointer': ['ptr', 'rec', 'padb3'],
    'strings': ['pad4', 'padl3', 'vbuf', ['pad', 3]],
}


def make(name, style='after', base=None):
    kind, name = name.split(':')
    if kind == 'R':
        return Record(RECORDS[name], style, 'up', base)
    return Stream(STRUCTS[name], base)


NAMES = ['R:' + n for n in sorted(RECORDS)] + ['S:' + n for n in sorted(STRUCTS)]


def relate(name, relation):
    """-> the definitions of two instances."""
    a = make(name)
    if relation == 'same':
        return a, a
    if relation == 'derived':
        return a, make(name, base=a)
    if relation == 'equal':
        return a, make(name, style='arith')
    return a, make(relation)


class Wrong(Exception):
    pass


def expect(got, want, what):
    if got != want:
        raise Wrong("%s: %r instead of %r" % (what, got, want))


def same_fields(d, obj, k):
    text = d.differs(obj, d.known(k))
    if text:
        raise Wrong(text)


def failing(func, what):
    try:
        result = func()
    except Wrong:
        raise
    except Exception:
        return
    raise Wrong("%s did not fail but gave %r" % (what, result))


# Operations for threads: prepared, then executed.  They raise Wrong if something isn't as if they were alone.

def op_write(d, k):
    obj = d.new(k)

    def run():
        expect(d.write(obj), d.codes[k], "written bytes")
        same_fields(d, obj, k)
    return run


def op_parse(d, k):
    obj = None if d.stream else d.cls()
    data = bytearray(d.codes[k]) if not d.stream else d.codes[k]

    def run():
        same_fields(d, d.parse(data, obj), k)
        expect(bytes(data), d.codes[k], "the data")
    return run


def op_create(d, k):
    values = d.values(k)

    def run():
        obj = d.cls(**values)
        expect(d.size(obj), len(d.codes[k]), "size")
        if d.stream:
            expect(bounds(d), d.bounds, "bounds")
    return run


def op_repr(d, k):
    obj = d.parse(d.codes[k])
    want = repr(d.parse(d.codes[k]))

    def run():
        expect(repr(obj), want, "printed form")
    return run


def op_spoilt(d, k):
    obj = d.new(k)

    def run():
        d.spoil(obj)
        failing(lambda: d.write(obj), "writing a bad value")
        d.assign(obj, k)
        expect(d.write(obj), d.codes[k], "written bytes after a failure")
    return run


def op_cut(d, k):
    data = d.shorter(d.codes[k])

    def run():
        if data is not None:
            failing(lambda: d.parse(data), "parsing %r" % (data,))
        same_fields(d, d.parse(d.codes[k]), k)
    return run


def op_define(d, k):
    def run():
        other = d.redefine()
        expect(other.write(other.new(k)), d.codes[k], "written bytes")
    return run


OPS = dict(write=op_write, parse=op_parse, create=op_create, repr=op_repr, spoilt=op_spoilt, cut=op_cut, define=op_define)


# ---------------------------------------------------------------- schedules

class Thread(object):
    """An operation in its own thread, that may stop at a place."""

    def __init__(self, func, places=None, at=None):
        self.func, self.places, self.at = func, places, at
        self.error = None
        self.arrived = threading.Event()      # at its place, or ended
        self.go = threading.Event()
        self.thread = threading.Thread(target=self.run)
        self.thread.daemon = True

    def run(self):
        try:
            if self.places is None:
                self.func()
            else:
                self.places.run(self.func, self.at, self.pause)
        except BaseException as e:
            self.error = e
        finally:
            self.arrived.set()

    def pause(self):
        self.arrived.set()
        self.go.wait()

    def start(self):
        self.thread.start()
        # If it can't go on because the other one holds a lock, the other one goes on.
        self.arrived.wait(0.25)

    def finish(self):
        self.go.set()
        self.thread.join()
        if self.error is not None:
            raise self.error


def checked(func, ctx, what):
    try:
        return func()
    except Wrong as e:
        ctx.fail("%s: %s", what, e)
    except Exception as e:
        ctx.fail("%s: unexpected %s: %s", what, type(e).__name__, e)


def run_schedules(case, ctx):
    """The second operation runs at every place of the first one."""
    name, relation, first, second, part, parts, most = case
    a, b = relate(name, relation)
    what = "%s of %s" % (first, name)
    ka, kb = 0, b.count - 1
    checked(OPS[first](a, ka), ctx, what)
    checked(OPS[second](b, kb), ctx, "%s of the other" % second)
    places = Places(('enter', 'line'), most)
    n = checked(lambda: places.run(OPS[first](a, ka)), ctx, what)
    for at in range(part, n, parts):
        mine = OPS[first](a, ka)
        other = Thread(OPS[second](b, kb))
        detail = "%s with %s of %s at place %d of %d" % (what, second, relation, at, n)

        def both():
            places.run(mine, at, other.start)
        checked(both, ctx, detail)
        if other.thread.ident is not None:
            checked(other.finish, ctx, "%s of %s in %s" % (second, relation, detail))
        ctx.step()
        ctx.state(name, relation, first, second, at)
    ctx.trace()
    ctx.outcome(first)


def run_overlaps(case, ctx):
    """The first stops at a place, the second one at one of its places, the first one ends, the second one ends."""
    name, relation, first, second, part, parts, kinds, most = case
    a, b = relate(name, relation)
    ka, kb = 0, b.count - 1
    what = "%s of %s" % (first, name)
    pa, pb = Places(kinds, most), Places(kinds, most)
    n = checked(lambda: pa.run(OPS[first](a, ka)), ctx, what)
    m = checked(lambda: pb.run(OPS[second](b, kb)), ctx, "%s of the other" % second)
    for i in range(part, n, parts):
        for j in range(m):
            mine = OPS[first](a, ka)
            other = Thread(OPS[second](b, kb), pb, j)
            detail = "%s at place %d with %s of %s at place %d" % (what, i, second, relation, j)
            checked(lambda: pa.run(mine, i, other.start), ctx, detail)
            if other.thread.ident is not None:
                checked(other.finish, ctx, "%s of %s in %s" % (second, relation, detail))
            ctx.step()
        ctx.state(name, relation, first, second, i)
    ctx.trace()
    ctx.outcome(first)


def gen_schedules(tier):
    quick = tier == 'quick'
    most = 1 if quick else 3

    def g():
        for name in NAMES:
            for first, second in itertools.product(sorted(OPS), repeat=2):
                relations = ['same']
                if not quick or first == second and first in ('write', 'parse', 'repr'):
                    relations += ['derived', 'equal' if name[0] == 'R' else 'S:nested']
                if quick and first != second and second not in ('write', 'parse') and (first, second) not in (('write', 'spoilt'), ('parse', 'cut')):
                    continue
                if quick and 'define' in (first, second) and name not in ('R:mixed', 'S:nested', 'S:lazy', 'R:blobs'):
                    continue
                for relation in relations:
                    if relation != 'same' and (first not in ('write', 'parse', 'create') or second not in ('write', 'parse')) and not quick:
                        continue
                    parts = 1 if quick else 8
                    for part in range(parts):
                        yield [name, relation, first, second, part, parts, most]
    return g


def gen_overlaps(tier):
    quick = tier == 'quick'

    def g():
        for name in ('R:mixed', 'R:func', 'R:blobs', 'S:nested', 'S:lazy', 'S:chosen') if quick else NAMES:
            pairs = [('write', 'write'), ('parse', 'parse'), ('write', 'parse'), ('parse', 'write'), ('create', 'create')]
            if not quick:
                pairs += [('repr', 'write'), ('repr', 'parse')]
            for first, second in pairs:
                parts = 2 if quick else 8
                for part in range(parts):
                    yield [name, 'same', first, second, part, parts, ['enter'], 1]
                # every line, where there are few
                if not quick and name in ('S:plain', 'S:lazy', 'S:nested', 'S:optional'):
                    for part in range(parts):
                        yield [name, 'same', first, second, part, parts, ['enter', 'line', 'call'], 1]
    return g


# ---------------------------------------------------------------- faults

class Injected(BaseException):
    pass


def run_faults(case, ctx):
    """An operation ends with an error at a place; operations on other instances don't notice."""
    name, relation, first, part, parts, most = case
    a, b = relate(name, relation)
    ka, kb = 0, b.count - 1
    what = "%s of %s" % (first, name)
    places = Places(('enter', 'line'), most)
    n = checked(lambda: places.run(OPS[first](a, ka)), ctx, what)

    def fault():
        raise Injected()
    for at in range(part, n, parts):
        mine = OPS[first](a, ka)
        try:
            places.run(mine, at, fault)
        except (Exception, Injected):
            pass
        detail = "after an error at place %d of %d of %s" % (at, n, what)
        for second in ('write', 'parse', 'create'):
            checked(OPS[second](b, kb), ctx, "%s of %s %s" % (second, relation, detail))
        checked(OPS[first](a, ka), ctx, "%s again %s" % (first, detail))
        ctx.step()
        ctx.state(name, relation, first, at)
    ctx.trace()
    ctx.outcome(first)


# ---------------------------------------------------------------- histories

class Instance(object):
    def __init__(self, d, k):
        self.d = d
        self.obj = d.new(k)
        self.k = k
        self.known = set(d.values(k))       # names of the fields with specified values
        self.kept = []

    def check(self, what):
        expected = self.d.known(self.k)
        text = self.d.differs(self.obj, dict((n, expected[n]) for n in self.known if n in expected))
        if text:
            raise Wrong("%s: %s" % (what, text))
        for result, copy in self.kept:
            expect(result, copy, "%s: an earlier result" % what)

    def do(self, op, k):
        d = self.d
        if op == 'set':
            d.assign(self.obj, k)
            self.k, self.known = k, set(d.values(k))
        elif op == 'write':
            raw = self.obj.pack() if not d.stream else self.obj.to_bytes()
            expect(bytes(raw), d.codes[self.k], "written bytes")
            self.kept.append((raw, bytes(raw)))
            self.known = set(d.known(self.k))
        elif op == 'parse':
            data = bytearray(d.codes[k]) if not d.stream else d.codes[k]
            self.obj = d.parse(data, None if d.stream else self.obj)
            self.k, self.known = k, set(d.known(k))
            self.kept.append((data, d.codes[k]))
        elif op == 'size':
            expect(d.size(self.obj), len(d.codes[self.k]), "size")
            self.known = set(d.values(self.k)) & self.known
        elif op == 'repr':
            text = repr(self.obj)
            if type(self.obj).__name__ not in text:
                raise Wrong("printed form is %r" % text)
        elif op == 'spoilt':
            d.spoil(self.obj)
            failing(lambda: d.write(self.obj), "writing a bad value")
            self.do('set', self.k)
        elif op == 'cut':
            data = d.shorter(d.codes[self.k])
            if data is not None:
                failing(lambda: d.parse(data, None if d.stream else self.obj), "parsing %r" % (data,))
                if not d.stream:
                    self.do('set', self.k)


ACTIONS = [('set', 0), ('set', 1), ('write', 0), ('parse', 0), ('parse', 1), ('size', 0), ('repr', 0), ('spoilt', 0), ('cut', 0)]


def run_history(case, ctx):
    name, relation, start, depth = case
    a, b = relate(name, relation)
    for rest in itertools.product(itertools.product((0, 1), range(len(ACTIONS))), repeat=depth - len(start)):
        history = [tuple(x) for x in start] + list(rest)
        shown = [(who, ACTIONS[what]) for who, what in history]
        both = [Instance(a, 0), Instance(b, b.count - 1)]

        def execute():
            for who, what in history:
                op, k = ACTIONS[what]
                both[who].do(op, min(k, both[who].d.count - 1))
                ctx.step()
            for who, i in enumerate(both):
                i.check("fields of instance %d" % who)
            for who, i in enumerate(both):
                i.do('write', 0)
                i.check("fields of instance %d at the end" % who)
        checked(execute, ctx, "%s %s after %s" % (name, relation, shown))
        ctx.trace()
    ctx.state(*case)
    ctx.outcome('ok')


def gen_histories(tier):
    quick = tier == 'quick'

    def g():
        for name in NAMES:
            unrelated = NAMES[(NAMES.index(name) + 5) % len(NAMES)]
            for relation in ['same', 'derived', unrelated] + (['equal'] if name[0] == 'R' else []):
                depth = 2
                if not quick or relation == 'same':
                    depth = 3
                for what in range(len(ACTIONS)):
                    for who in (0,) if relation == 'same' else (0, 1):
                        if depth == 2:
                            yield [name, relation, [[who, what]], depth]
                        else:
                            for who2, what2 in itertools.product((0, 1), range(len(ACTIONS))):
                                if quick and (who2 == who or what % 2 != len(name) % 2):
                                    continue
                                yield [name, relation, [[who, what], [who2, what2]], depth]
    return g


# ---------------------------------------------------------------- shared data

def spoil_value(v, depth=0):
    """Modifies everything in a value that can be modified."""
    if isinstance(v, bytearray):
        for i in range(len(v)):
            v[i] ^= 255
        v.append(1)
    elif isinstance(v, list):
        for x in v:
            spoil_value(x, depth + 1)
        v.append('more')
    elif isinstance(v, dict):
        for x in v.values():
            spoil_value(x, depth + 1)
        v['more'] = 1
    elif isinstance(v, (Buffer, Struct)):
        names = [f.attr_name() for f in v._all_fields()] if isinstance(v, Buffer) else [n for n in vars(v) if not n.startswith('_')]
        for n in names:
            spoil_value(getattr(v, n), depth + 1)
        for n in names:
            try:
                setattr(v, n, 'spoilt')
            except Exception:
                pass


def spoil_all(d, obj):
    for n in d.known(0):
        spoil_value(getattr(obj, n))


def run_shared(case, ctx):
    name, relation, k, step = case
    a, b = relate(name, relation)
    kb = min(k, b.count - 1)

    def go():
        if step == 'result':
            o, other = a.new(k), b.new(kb)
            first = o.pack() if not a.stream else o.to_bytes()
            second = other.pack() if not b.stream else other.to_bytes()
            if isinstance(first, bytearray):
                spoil_value(first)
            expect(bytes(second), b.codes[kb], "written bytes of the other")
            expect(a.write(o), a.codes[k], "written bytes again")
            expect(b.write(other), b.codes[kb], "written bytes of the other again")
        elif step == 'input':
            data = bytearray(a.codes[k]) if not a.stream else array('B', a.codes[k])
            o = a.parse(data, None)
            other = a.parse(data, None)
            expect(bytes(bytearray(data)), a.codes[k], "the data")
            for i in range(len(data)):
                data[i] ^= 255
            same_fields(a, o, k)
            expect(a.write(o), a.codes[k], "written bytes")
            expect(a.write(other), a.codes[k], "written bytes of the other")
            if not a.stream:
                o.unpack(a.codes[k])
                same_fields(a, o, k)
        elif step == 'parsed':
            o = a.parse(a.codes[k])
            other = b.parse(b.codes[kb])
            third = a.parse(a.codes[k])
            spoil_all(a, o)
            same_fields(b, other, kb)
            same_fields(a, third, k)
            same_fields(a, a.parse(a.codes[k]), k)
            expect(b.write(other), b.codes[kb], "written bytes of the other")
            expect(a.write(third), a.codes[k], "written bytes of the other")
        elif step == 'given':
            # the values that are given to the constructor are only read
            values = a.values(k)
            o = a.cls(**values)
            for _ in range(2):
                a.write(o)
                a.size(o)
                repr(o)
            for n, v in a.values(k).items():
                got = values[n]
                if not (same(got, v) or type(got) == type(v) and (got == v or a.stream and repr(got) == repr(v))):
                    raise Wrong("the value given for %s is now %r instead of %r" % (n, got, v))
        elif step == 'shared value':
            # the same values in two instances
            values = a.values(k)
            o, other = a.cls(**values), a.cls(**values)
            expect(a.write(o), a.codes[k], "written bytes")
            expect(a.write(other), a.codes[k], "written bytes of the other")
            same_fields(a, o, k)
            a.assign(other, 0)
            expect(a.write(o), a.codes[k], "written bytes after the other changed")
        elif step == 'class':
            # attributes of an instance don't change those of the class or of others
            before = dict((n, repr(getattr(a.cls, n, None))) for n in a.known(k))
            o = a.new(k)
            a.write(o)
            spoil_all(a, o)
            expect(dict((n, repr(getattr(a.cls, n, None))) for n in before), before, "attributes of the class")
            expect(b.write(b.new(kb)), b.codes[kb], "written bytes of the other")
    checked(go, ctx, "%s" % (case,))
    ctx.step()
    ctx.state(*case)
    ctx.trace()
    ctx.outcome(step)


def gen_shared():
    for name in NAMES:
        for relation in ['same', 'derived'] + (['equal'] if name[0] == 'R' else []):
            for k in range(make(name).count):
                for step in ('result', 'input', 'parsed', 'given', 'shared value', 'class'):
                    yield [name, relation, k, step]


# ---------------------------------------------------------------- defaults

DEFAULTS = {
    'list': lambda: [1, 2], 'bytes': lambda: bytearray(b'ab'), 'record': lambda: family.PAIR1(), 'records': lambda: [family.PAIR1(), family.PAIR2()],
    'json': lambda: {'a': [1], 'b': {}},
}


def record_with_default(kind):
    make = {'list': lambda **kw: list_field(uint8, where=bytes_ref[1:], **kw), 'bytes': lambda **kw: bytearray_field(where=bytes_ref[1:], **kw),
            'record': lambda **kw: buffer_field(family.Pair, where=bytes_ref[1:], **kw),
            'records': lambda **kw: list_field(family.Pair, where=bytes_ref[1:], **kw), 'json': lambda **kw: json_field(where=bytes_ref[1:], **kw)}[kind]
    return record({'n': uint_field(where=bytes_ref[0], default=7), 'x': make(default=DEFAULTS[kind]())})


class Inner(Struct):
    _fields_ = [UBInt8('p'), UBInt16('q')]


STRUCT_DEFAULTS = {
    'list': (lambda v: FixedSizeArray('x', 2, UBInt8, v), lambda: [1, 2]),
    'record': (lambda v: Field('x', Inner, v), lambda: Inner(p=3, q=4)),
    'records': (lambda v: VarSizeArray('x', UBInt8, Inner, v), lambda: [Inner(p=1, q=2), Inner(p=3, q=4)]),
}


def run_defaults(case, ctx):
    """What's done to an instance doesn't change the defaults."""
    family_name, kind, history = case
    if family_name == 'R':
        cls = record_with_default(kind)
        derived = record({'extra': None}, (cls,))
        write, parse = (lambda o: bytes(o.pack())), (lambda c, data: (lambda o: (o.unpack(data), o)[1])(c()))
    else:
        field, value = STRUCT_DEFAULTS[kind]
        cls = type(Struct)('Top', (Struct,), {'_fields_': [UBInt8('n', 7), field(value())], '__module__': 'case'})
        derived = type(Struct)('Derived', (cls,), {'__module__': 'case'})
        write, parse = (lambda o: o.to_bytes()), (lambda c, data: c.create_from_string(data))
    want = write(cls())
    kept = []
    for op in history:
        o = None
        if op == 'create':
            kept.append(cls())
        elif op == 'spoil':
            o = cls()
            spoil_value(o.x)
            spoil_value(o)
        elif op == 'spoil derived':
            o = derived()
            spoil_value(o.x)
        elif op == 'parse':
            o = parse(cls, want)
            spoil_value(o.x)
        elif op == 'assign':
            o = cls()
            o.x = None
        elif op == 'given':
            o = cls(x=cls().x, n=1)
            spoil_value(o.x)
        elif op == 'write':
            ctx.eq(write(cls()), want, "%s" % (case,))
        for k in [cls(), derived()] + kept:
            ctx.eq(write(k), want, "an instance with defaults after %s in %s" % (op, case))
        ctx.step()
    ctx.state(*case)
    ctx.trace()
    ctx.outcome(family_name)


DEFAULT_OPS = ('create', 'spoil', 'spoil derived', 'parse', 'assign', 'given', 'write')


def gen_defaults(depth):
    def g():
        for d in range(1, depth + 1):
            for history in itertools.product(DEFAULT_OPS, repeat=d):
                for kind in sorted(DEFAULTS):
                    yield ['R', kind, list(history)]
                for kind in sorted(STRUCT_DEFAULTS):
                    yield ['S', kind, list(history)]
    return g


# ---------------------------------------------------------------- contexts

CONTEXTS = [{}, {'int_repr_format': '<%x>'}, {'float_repr_format': '%.2f', 'int_repr_format': '%03d'}]


def run_contexts(case, ctx):
    """Histories of operations with contexts: every one is as if it was the first one."""
    relation, own, first, depth = case

    def define():
        attrs = {'__module__': 'case', '_fields_': [UBInt16('n'), BFloat32('f')]}
        inner = type(Struct)('Part', (Struct,), attrs)
        attrs = {'__module__': 'case', '_fields_': [UBInt8('k'), Field('p', inner), Lazy(UBInt8('l')), BitFields(BitField('b', 8))]}
        if own:
            attrs['_context_'] = dict(CONTEXTS[own])
        a = type(Struct)('Top', (Struct,), attrs)
        b = a if relation == 'same' else type(Struct)('Top', (a,), {'__module__': 'case'}) if relation == 'derived' else \
            type(Struct)('Top', (Struct,), dict(attrs, _fields_=[UBInt8('k'), Field('p', inner), Lazy(UBInt8('l')), BitFields(BitField('b', 8))]))
        return inner, (a, b)

    def text(own, given):
        c = dict(CONTEXTS[own])
        c.update(CONTEXTS[given])
        i, f = c.get('int_repr_format', '%d'), c.get('float_repr_format', '%f')
        return 'Top(k=%s, p=Part(n=%s, f=%s), l=%s, b=%s)' % (i % 10, i % 300, f % 1.5, i % 12, i % 13)
    code = b'\x0a' + struct.pack('>Hf', 300, 1.5) + b'\x0c\x0d'
    choices = [(op, who, given) for op in ('print', 'parse', 'write', 'fail') for who in (0, 1) for given in range(len(CONTEXTS))]
    for history in itertools.product(choices, repeat=depth - 1):
        history = (choices[first],) + history
        inner, classes = define()
        objs = [c(k=10, p=inner(n=300, f=1.5), l=12, b=13) for c in classes]
        for op, who, given in history:
            cls, obj = classes[who], objs[who]
            context = WritableContext(dict(CONTEXTS[given])) if given else EMPTY_CONTEXT
            if op == 'print':
                ctx.eq(cls.to_repr(obj, context), text(own, given), "printed form in %s" % (history,))
            elif op == 'parse':
                objs[who] = cls.create_from_string(code, context)
                objs[who].l
            elif op == 'write':
                ctx.eq(cls.write_to_string(obj, context), code, "bytes in %s" % (history,))
            else:
                obj.b = 300
                ctx.rejects(lambda: cls.write_to_string(obj, context), "a bad value in %s" % (history,))
                obj.b = 13
            ctx.eq(context.get_dict(), CONTEXTS[given], "the given context in %s" % (history,))
            ctx.eq([repr(o) for o in objs], [text(own, 0)] * 2, "printed forms after %s" % (history,))
            ctx.eq(repr(inner(n=300, f=1.5)), "Part(n=300, f=1.500000)", "printed form of a part after %s" % (history,))
            ctx.step()
        ctx.trace()
    ctx.state(*case)
    ctx.outcome('ok')


def gen_contexts(depth):
    def g():
        for relation in ('same', 'derived', 'other'):
            for own in range(len(CONTEXTS)):
                for first in range(24):
                    yield [relation, own, first, depth]
    return g


# ---------------------------------------------------------------- operations inside of operations

class Hook(object):
    """Called by all user functions; does something once."""
    n, at, action, busy = 0, None, None, False

    def fire(self):
        if self.busy:
            return
        n, self.n = self.n, self.n + 1
        if n == self.at:
            self.busy = True
            try:
                self.action()
            finally:
                self.busy = False

    def start(self, at=None, action=None):
        self.n, self.at, self.action = 0, at, action


hook = Hook()


def hooked(f):
    def g(*args, **kwargs):
        hook.fire()
        return f(*args)
    return g


class HookedInner(Buffer):
    a = uint_field(where=bytes_ref[0])
    b = bytearray_field(where=bytes_ref[1:1 + num_ref(member_func_ref(hooked(lambda o: 2)))])

    def __init__(self, **kw):
        hook.fire()
        super(HookedInner, self).__init__(**kw)

    def pack(self):
        hook.fire()
        return super(HookedInner, self).pack()

    def unpack(self, data):
        hook.fire()
        return super(HookedInner, self).unpack(data)

    def __eq__(self, other):
        return type(self) == type(other) and (self.a, self.b) == (other.a, other.b)

    def __ne__(self, other):
        return not self == other

    def __repr__(self):
        hook.fire()
        return super(HookedInner, self).__repr__()


class HookedRecord(object):
    """n: data length; flag; data; [e: if flag]; list of inner"""
    stream = False
    count = 2

    def __init__(self):
        attrs = {}
        attrs['a_n'] = n = uint_field(where=bytes_ref[0], set_before_pack=hooked(lambda o: len(o.data)))
        attrs['b_flag'] = flag = uint_field(where=bytes_ref[1], set_after_unpack=hooked(lambda v: v))
        attrs['data'] = data = bytearray_field(where_when_pack=bytes_ref[2:2 + num_ref(member_func_ref(hooked(lambda o: len(o.data))))],
                                               where_when_unpack=bytes_ref[2:2 + n])
        attrs['twice'] = hooked(lambda self, v: v * 2)
        attrs['is_on'] = hooked(lambda self, v: v != 0)
        attrs['unit'] = property(hooked(lambda self: 3))
        attrs['extra'] = extra = be_uint_field(where=bytes_ref[after_ref(data):after_ref(data) + num_ref(self_ref.twice(1))],
                                               pack_if=self_ref.is_on(flag), unpack_if=self_ref.is_on(flag), unpack_after=[flag])
        start = n + flag * 2 + 2
        attrs['inner'] = inner = buffer_field(HookedInner, where=bytes_ref[start:start + num_ref(self_ref.unit)],
                                              unpack_selector=hooked(lambda *args: HookedInner))
        attrs['more'] = list_field(HookedInner, n=2, where=bytes_ref[start + 3:start + 9], unpack_selector=hooked(lambda *args: HookedInner))
        self.cls = record(attrs)
        self.codes = [self.encode(k) for k in range(2)]

    def values(self, k):
        inners = [HookedInner(a=10 * k + i, b=bytearray([i, 77])) for i in range(3)]
        return {'b_flag': k, 'data': bytearray(b'xyz'[:3 - k]), 'extra': 0x4142 if k else None, 'inner': inners[0], 'more': inners[1:]}

    def known(self, k):
        return dict(self.values(k), a_n=3 - k)

    def encode(self, k):
        v = self.values(k)
        return bytes(bytearray([3 - k, k])) + bytes(v['data']) + (b'AB' if k else b'') + b''.join(bytes(bytearray([o.a]) + o.b) for o in [v['inner']] + v['more'])

    new, assign, write, parse, size, differs, redefine = (Record.__dict__[n] for n in ('new', 'assign', 'write', 'parse', 'size', 'differs', 'redefine'))

    def redefine(self):
        return HookedRecord()

    def spoil(self, obj):
        obj.more = [obj.inner, 'bad']

    def shorter(self, data):
        return data[:-1]


class HookedMarshal(Marshal):
    def create_from_stream(self, stream, context, *args, **kwargs):
        hook.fire()
        return bytearray(stream.read(1))[0]

    def write_to_stream(self, obj, stream, context):
        hook.fire()
        stream.write(struct.pack('B', obj))

    def sizeof(self, obj):
        hook.fire()
        return 1

    def is_fixed_size(self):
        hook.fire()
        return True

    def min_max_sizeof(self):
        hook.fire()
        return MinMax(1, 1)

    def to_repr(self, obj, context):
        hook.fire()
        return repr(obj)


class HookedPart(Struct):
    _fields_ = [Field('p', HookedMarshal()), UBInt8('q')]


class HookedStruct(object):
    stream = True
    count = 2

    def __init__(self):
        m = HookedMarshal()
        fields = [Field('a', m), UBInt8('n'), VarSizeBuffer('data', ReadPointer('n')),
                  OptionalField('o', m, hooked(lambda obj, stream, context: obj.a != 0)),
                  SelectStructByFunc('s', hooked(lambda obj, stream, context: HookedPart)),
                  Lazy(Field('l', m), Field('k', HookedPart)), Field('z', HookedPart)]
        self.cls = type(Struct)('HookedTop', (Struct,), {'_fields_': fields, '__module__': 'case'})
        self.codes = [self.encode(k) for k in range(2)]
        self.bounds = bounds(self)

    def part(self, k):
        return HookedPart(p=k, q=k + 1)

    def values(self, k):
        return {'a': k, 'n': 2 + k, 'data': b'xyz'[:2 + k], 'o': 9 if k else None, 's': self.part(20 + k), 'l': 5 + k, 'k': self.part(30 + k), 'z': self.part(40 + k)}

    known = values

    def encode(self, k):
        def part(k):
            return bytearray([k, k + 1])
        return bytes(bytearray([k, 2 + k]) + b'xyz'[:2 + k] + (b'\x09' if k else b'') + part(20 + k) + bytearray([5 + k]) + part(30 + k) + part(40 + k))

    new, assign, write, parse, size = (Stream.__dict__[n] for n in ('new', 'assign', 'write', 'parse', 'size'))

    def differs(self, obj, expected):
        for name, v in expected.items():
            got = getattr(obj, name)
            if isinstance(v, HookedPart):
                if type(got) != HookedPart or (got.p, got.q) != (v.p, v.q):
                    return "%s is %r instead of %r" % (name, got, v)
            elif type(got) != type(v) or got != v:
                return "%s is %r instead of %r" % (name, got, v)

    def redefine(self):
        return HookedStruct()

    def spoil(self, obj):
        obj.z = 'bad'

    def shorter(self, data):
        return data[:-1]


HOOKED = {'R': HookedRecord, 'S': HookedStruct}


def run_hooks(case, ctx):
    """Every user function of the first operation executes the second one."""
    family_name, first, second, relation, k, kb = case
    a = HOOKED[family_name]()
    b = a if relation == 'same' else HOOKED[relation]() if relation in HOOKED else make(relation)
    hook.start()
    hook.busy = False
    what = "%s of %s" % (first, family_name)
    checked(OPS[first](a, k), ctx, what)
    op = OPS[first](a, k)
    hook.start()
    checked(op, ctx, what)
    n = hook.n
    for at in range(n):
        mine = OPS[first](a, k)
        other = OPS[second](b, kb)
        done = []

        def action():
            other()
            done.append(1)
        hook.start(at, action)
        try:
            checked(mine, ctx, "%s with %s of %s in user function %d" % (what, second, relation, at))
        finally:
            hook.start()
        ctx.true(done == [1], "user function %d of %s was not called" % (at, what))
        ctx.step()
        ctx.state(*(case[:4] + [at]))
    ctx.trace()
    ctx.outcome(first)


def gen_hooks(tier):
    def g():
        for family_name in ('R', 'S'):
            for first, second in itertools.product(sorted(OPS), repeat=2):
                for relation in ('same', family_name, 'S' if family_name == 'R' else 'R', 'R:mixed', 'S:nested'):
                    for k, kb in ((0, 1), (1, 0))[len(first + second) % 2:][:1] if tier == 'quick' else itertools.product((0, 1), repeat=2):
                        yield [family_name, first, second, relation, k, kb]
    return g


def gen_faults(tier):
    quick = tier == 'quick'

    def g():
        for name in NAMES:
            for first in sorted(OPS):
                if quick and first in ('repr', 'create', 'cut') and name not in ('R:mixed', 'S:nested', 'S:lazy'):
                    continue
                for relation in ['same'] if quick else ['same', 'derived']:
                    yield [name, relation, first, 0, 1, 1] if quick else [name, relation, first, 0, 1, 3]
    return g


# ---------------------------------------------------------------- copies

def run_copies(case, ctx):
    if case[0] == 'struct':
        struct_copies(case[1:], ctx)
    else:
        record_copies(*(case[1:] + [ctx]))


def gen_copies(tier):
    more = [[], ['u8']] if tier == 'quick' else [[]] + [[x] for x in sfamily.ALL]
    for i in sfamily.ALL:
        for j in more:
            yield ['struct', i] + j
    for kinds, style, names in (family.programs([0, 1], styles=['after'], names=['up']) if tier == 'quick' else family.programs([0, 1])):
        yield ['record', kinds, style, names]


def spaces(tier):
    return [
        Space('shared', gen_shared, run_shared, 'inputs and results modified later', ['result', 'input', 'parsed', 'given', 'shared value', 'class']),
        Space('defaults', gen_defaults(2 if tier == 'quick' else 4), run_defaults, 'instances with defaults', ['R', 'S']),
        Space('contexts', gen_contexts(2 if tier == 'quick' else 3), run_contexts, 'histories of operations with contexts', ['ok', 'rejected']),
        Space('copies', lambda: gen_copies(tier), run_copies, 'copies, and changes of them and of the originals', ['copied']),
        Space('hooks', gen_hooks(tier), run_hooks, 'operations inside of operations', sorted(OPS)),
        Space('histories', gen_histories(tier), run_history, 'histories of two instances', ['ok']),
        Space('faults', gen_faults(tier), run_faults, 'operations that end early', sorted(OPS)),
        Space('schedules', gen_schedules(tier), run_schedules, 'one preemption', sorted(OPS)),
        Space('overlaps', gen_overlaps(tier), run_overlaps, 'two preemptions', ['write', 'parse', 'create']),
    ]
