"""One object through several values: what it says about itself follows the values that it has now."""
import copy
import itertools
from mc import sfamily
from mc.sfamily import StructItem, Rec, construct
from infi.instruct.buffer import Buffer
from infi.instruct.struct import Struct


def morph(old, new):
    """Gives what is there the new value without replacing it, wherever that's possible."""
    if isinstance(new, Rec) and type(old) is new.cls:
        for n, v in new.values.items():
            setattr(old, n, morph(getattr(old, n), v))
        return old
    if isinstance(new, (Struct, Buffer)) and type(old) is type(new):
        for n, v in vars(new).items():
            setattr(old, n, morph(getattr(old, n), v))
        return old
    if isinstance(new, list) and type(old) is list:
        old[:] = [morph(o, x) for o, x in zip(old, new)] + [construct(x) for x in new[len(old):]]
        return old
    if isinstance(new, bytearray) and type(old) is bytearray:
        old[:] = new
        return old
    return construct(new)


def replace(obj, new):
    for n, v in new.items():
        setattr(obj, n, construct(v))


def in_place(obj, new):
    for n, v in new.items():
        setattr(obj, n, morph(getattr(obj, n), v))


def struct_changes(items, look, ctx):
    """look(obj, cls, bytes, fresh object, what) compares what an object says with its serialized form, and with an equal object."""
    s = StructItem(items, name='Top')
    cls = s.define()
    combos = s.few()
    for a, b in itertools.product(combos, repeat=2):
        if a is b and len(combos) > 1:
            continue
        spec, other = s.spec(a), s.spec(b)
        for origin in ('constructed', 'parsed'):
            for change in (replace, in_place):
                obj = construct(spec)
                if origin == 'parsed':
                    obj = cls.create_from_string(obj.to_bytes())
                what = "%s %s %s, then %s %s" % (origin, items, a, change.__name__, b)
                look(obj, cls, sfamily.Fields.encode(s, a), construct(spec), what)
                change(obj, other.values)
                look(obj, cls, sfamily.Fields.encode(s, b), construct(other), what)
                change(obj, spec.values)
                look(obj, cls, sfamily.Fields.encode(s, a), construct(spec), what + ", and back")
                ctx.step(3)
        ctx.state(repr(items), repr(a), repr(b))
    ctx.outcome('changed')
    ctx.trace()


def record_changes(kinds, style, names, look, ctx, first):
    from mc.family import Program
    p = Program(kinds, style, names)
    cls = p.define()
    combos = list(p.values())
    a = combos[first]

    def fresh(combo):
        return copy.deepcopy(p.set(combo))
    for b in combos:
        for origin in ('constructed', 'unpacked'):
            for change in (replace, in_place):
                obj = cls(**fresh(a))
                if origin == 'unpacked':
                    obj = cls()
                    obj.unpack(bytes(p.encode(a)))
                what = "%s %r with %s, then %s %s" % (origin, p, p.set(a), change.__name__, p.set(b))
                look(obj, cls, p.encode(a), cls(**fresh(a)), what)
                change(obj, fresh(b))
                look(obj, cls, p.encode(b), cls(**fresh(b)), what)
                ctx.step(2)
    ctx.state(kinds, style, names, first)
    ctx.outcome('changed')
    ctx.trace()


# ---------------------------------------------------------------- copies

COPIES = {
    'copy': copy.copy,
    'deepcopy': copy.deepcopy,
    'copy of copy': lambda obj: copy.copy(copy.copy(obj)),
    'deepcopy of copy': lambda obj: copy.deepcopy(copy.copy(obj)),
}


def changes_of(how):
    # a shallow copy holds the same values, so only replacing them is independent
    return (replace, in_place) if how.startswith('deep') else (replace,)


def struct_copies(items, ctx):
    s = StructItem(items, name='Top')
    cls = s.define()
    combos = s.few()
    a, b = combos[0], combos[-1]
    spec, other = s.spec(a), s.spec(b)
    one, two = sfamily.Fields.encode(s, a), sfamily.Fields.encode(s, b)
    for origin in ('constructed', 'parsed', 'printed', 'read'):
        for how in sorted(COPIES):
            for change in changes_of(how):
                for side in (0, 1):
                    obj = construct(spec)
                    if origin != 'constructed':
                        obj = cls.create_from_string(one)
                    if origin == 'printed':
                        repr(obj)
                    if origin == 'read':
                        cls.write_to_string(obj)
                    pair = [obj, COPIES[how](obj)]
                    what = "%s %s %s, %s of it, %s changed by %s to %s" % (origin, items, a, how, ['original', 'copy'][side], change.__name__, b)
                    ctx.true(type(pair[1]) is cls and pair[1] is not obj, what + ": no copy")
                    change(pair[side], other.values)
                    ctx.eq(cls.write_to_string(pair[side]), two, what + ": the changed one")
                    ctx.eq(cls.write_to_string(pair[1 - side]), one, what + ": the other one")
                    ctx.eq(cls.sizeof(pair[side]), len(two), what + ": size of the changed one")
                    ctx.eq(cls.sizeof(pair[1 - side]), len(one), what + ": size of the other one")
                    ctx.true(sfamily.same(pair[1 - side], spec), what + ": values of the other one: %r" % (pair[1 - side],))
                    ctx.step(5)
    ctx.state('struct', repr(items))
    ctx.outcome('copied')
    ctx.trace()


def record_copies(kinds, style, names, ctx):
    from mc.family import Program
    p = Program(kinds, style, names)
    cls = p.define()
    combos = list(p.values())
    a, b = combos[0], combos[-1]

    def fresh(combo):
        return copy.deepcopy(p.set(combo))
    for origin in ('constructed', 'packed', 'unpacked'):
        for how in sorted(COPIES):
            for change in changes_of(how):
                for side in (0, 1):
                    obj = cls(**fresh(a))
                    if origin == 'packed':
                        obj.pack()
                    if origin == 'unpacked':
                        obj = cls()
                        obj.unpack(bytes(p.encode(a)))
                    pair = [obj, COPIES[how](obj)]
                    what = "%s %r with %s, %s of it, %s changed by %s to %s" % (origin, p, p.set(a), how, ['original', 'copy'][side],
                                                                              change.__name__, p.set(b))
                    ctx.true(type(pair[1]) is cls and pair[1] is not obj, what + ": no copy")
                    change(pair[side], fresh(b))
                    ctx.eq(bytes(pair[side].pack()), p.encode(b), what + ": the changed one")
                    ctx.eq(bytes(pair[1 - side].pack()), p.encode(a), what + ": the other one")
                    ctx.step(2)
    ctx.state('record', kinds, style, names)
    ctx.outcome('copied')
    ctx.trace()
