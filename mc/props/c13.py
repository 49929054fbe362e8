"""C13: conditional fields are there exactly when their condition holds."""
import itertools
import struct
from mc.core import Space
from mc.family import Pair, pair_bytes
from mc.rec import record
from infi.instruct.buffer import (Buffer, bytes_ref, uint_field, int_field, be_uint_field, le_uint_field, float_field, str_field,
                                  bytearray_field, list_field, buffer_field, json_field, uint8, b_uint16, after_ref, len_ref, num_ref,
                                  self_ref, min_ref, max_ref, member_func_ref, total_size, input_buffer_length)

ID = 'C13'
RULE = ('conditions: one to three conditional fields with every pair of a pack and an unpack condition from the list, every value of the fields that '
        'the conditions look at, every layout and order of names; kinds: every field kind, skipped with contents that can not be packed or unpacked; '
        'chains: conditions on fields that are conditional themselves; histories: sequences of packing and unpacking with one instance')
ASSUMPTIONS = ['a record whose positions are all constants occupies its class size, and skipped fields are zero bytes there',
               'arithmetic on a field that was skipped when unpacking is not specified (its value is None), comparing for equality is',
               'a function of the record looks at fields that come before it (by name or by unpack_after)']

# ---------------------------------------------------------------- conditions

def bit(k):
    return 1 << k


# name: (k, fields, side) -> condition for field k;  truth: (k, flags) -> does it hold
CONDITIONS = {
    'absent': (None, lambda k, v: True),
    'none': (lambda k, a: None, lambda k, v: True),
    'true': (lambda k, a: True, lambda k, v: True),
    'false': (lambda k, a: False, lambda k, v: False),
    'zero': (lambda k, a: 0, lambda k, v: False),
    'one': (lambda k, a: 1, lambda k, v: True),
    'field': (lambda k, a: a['bit%d' % k], lambda k, v: bool(v & bit(k))),
    'equal': (lambda k, a: a['flags'] == k + 1, lambda k, v: v == k + 1),
    'unequal': (lambda k, a: a['flags'] != k + 1, lambda k, v: v != k + 1),
    'less': (lambda k, a: a['flags'] < k + 1, lambda k, v: v < k + 1),
    'more': (lambda k, a: a['flags'] >= k + 1, lambda k, v: v >= k + 1),
    'sum': (lambda k, a: a['flags'] - (k + 1), lambda k, v: v != k + 1),
    'name': (lambda k, a: num_ref(getattr(self_ref, a['names']['bit%d' % k])), lambda k, v: bool(v & bit(k))),
    'max': (lambda k, a: max_ref(a['bit%d' % k], a['bit0']), lambda k, v: bool(v & (bit(k) | 1))),
    'min': (lambda k, a: min_ref(a['bit%d' % k], a['bit0']), lambda k, v: bool(v & bit(k) and v & 1)),
    'len': (lambda k, a: len_ref(a['text']) >= k + 2, lambda k, v: (v & 3) >= k + 2),
    'method': (lambda k, a: self_ref.holds(k, a['flags']), lambda k, v: bool(v & bit(k))),
    'member': (lambda k, a: member_func_ref(lambda o: getattr(o, a['names']['flags']) & bit(k)), lambda k, v: bool(v & bit(k))),
}
BY_FUNCTION = ('member',)

TEXTS = ['', 'a', 'ab', 'abc']
NAMES = {
    # names of: the flags, the text, bits, conditional fields
    'up': dict(flags='a', text='at', bits='b%d', fields='v%d'),
    'down': dict(flags='z', text='zt', bits='y%d', fields='c%d'),
    'mid': dict(flags='m', text='mt', bits='l%d', fields='n%d'),
    'reverse': dict(flags='a', text='at', bits='b%d', fields='%d'),
}
SIZES = {'byte': 1, 'word': 2, 'text': 3, 'bytes': 2, 'list': 4, 'pair': 3, 'nibble': 1}
VALUES = {'byte': 0xA1, 'word': 0xB1B2, 'text': 'xyz', 'bytes': bytearray(b'\xc1\xc2'), 'list': [0xD1D2, 0xD3D4], 'pair': None, 'nibble': 5}
BAD = [None, 'not it', -1, object, 1 << 80, [None]]


def value(kind):
    return Pair(x=0xE1E2, y=1, z=14) if kind == 'pair' else VALUES[kind][:] if isinstance(VALUES[kind], (list, bytearray)) else VALUES[kind]


def encode(kind, v):
    return {'byte': lambda: struct.pack('B', v), 'word': lambda: struct.pack('>H', v), 'text': lambda: v.encode(), 'bytes': lambda: bytes(v),
            'list': lambda: struct.pack('>2H', *v), 'pair': lambda: pair_bytes(v), 'nibble': lambda: struct.pack('B', v << 4)}[kind]()


def make(kind, start, **kw):
    n = SIZES[kind]
    if kind == 'nibble':
        return uint_field(where=bytes_ref[start].bits[4:8], **kw)
    where = bytes_ref[start] if n == 1 else bytes_ref[start:start + n]
    return {'byte': uint_field, 'word': be_uint_field, 'text': str_field, 'bytes': bytearray_field,
            'list': lambda **k: list_field(b_uint16, **k), 'pair': lambda **k: buffer_field(Pair, **k)}[kind](where=where, **kw)


BASE = 6      # flags, bits of the flags, up to three bytes of text, size


def same(a, b):
    return type(a) == type(b) and a == b


def define(kinds, conditions, names, layout, total=False):
    scheme = NAMES[names]
    a = {'names': {'flags': scheme['flags'], 'text': scheme['text']}}
    attrs = {}
    a['flags'] = attrs[scheme['flags']] = uint_field(where=bytes_ref[0])
    for k in range(3):
        a['names']['bit%d' % k] = scheme['bits'] % k
        a['bit%d' % k] = attrs[scheme['bits'] % k] = uint_field(where=bytes_ref[1].bits[k])
    a['text'] = attrs[scheme['text']] = str_field(where=bytes_ref[2:5])
    if total:
        attrs['total'] = uint_field(where=bytes_ref[5], set_before_pack=total_size)
    attrs['holds'] = lambda self, k, flags: flags & bit(k)
    start = BASE
    if layout == 'dynamic':
        start = BASE + a['bit0'] - a['bit0']
    fields = []
    previous = None
    for k, (kind, (p, u)) in enumerate(zip(kinds, conditions)):
        kw = {}
        if CONDITIONS[p][0] is not None:
            kw['pack_if'] = CONDITIONS[p][0](k, a)
        if CONDITIONS[u][0] is not None:
            kw['unpack_if'] = CONDITIONS[u][0](k, a)
        if u in BY_FUNCTION:
            kw['unpack_after'] = a['flags']
        name = scheme['fields'] % (k if names != 'reverse' else 9 - k) if names != 'reverse' else 'w%d' % (9 - k)
        f = attrs[name] = make(kind, start, **kw)
        fields.append(name)
        if layout == 'moving':
            start = start + a['bit%d' % k] * SIZES[kind]
        elif layout == 'after':
            start = after_ref(f)
        else:
            start = start + SIZES[kind]
    return attrs, fields, scheme


def places(kinds, layout, v):
    at = BASE
    out = []
    for k, kind in enumerate(kinds):
        out.append((at, at + SIZES[kind]))
        if layout != 'moving' or v & bit(k):
            at += SIZES[kind]
    return out


def common(scheme, v):
    d = {scheme['flags']: v, scheme['text']: TEXTS[v & 3]}
    for k in range(3):
        d[scheme['bits'] % k] = v >> k & 1
    return d


def head(v, total=0):
    return struct.pack('BB3sB', v, v & 7, TEXTS[v & 3].encode().ljust(3), total)


def run_conditions(case, ctx):
    kinds, conditions, names, layout, total = case
    conditions = [tuple(c) for c in conditions]
    attrs, fields, scheme = define(kinds, conditions, names, layout, total)
    cls = record(attrs)
    static = cls.byte_size
    ctx.true(layout == 'fixed' or layout in ('moving', 'after') and len(kinds) == 1 or static is None, "class size of %s" % (case,))
    used = cls()
    for v in range(1 << max(len(kinds), 2)):
        spots = places(kinds, layout, v)
        packed_in = [CONDITIONS[p][1](k, v) for k, (p, u) in enumerate(conditions)]
        read_in = [CONDITIONS[u][1](k, v) for k, (p, u) in enumerate(conditions)]
        # fields that are there may not overlap
        there = [spots[k] for k in range(len(kinds)) if packed_in[k]]
        if any(a < d and c < b for (a, b), (c, d) in itertools.combinations(there, 2)):
            continue
        end = max([BASE if total else 5] + [b for a, b in there])
        if static is not None:
            end = static
        want = bytearray(end)
        want[:len(head(v)[:end])] = head(v, end if total else 0)[:end]
        for k, kind in enumerate(kinds):
            if packed_in[k]:
                want[spots[k][0]:spots[k][1]] = encode(kind, value(kind))
        for bad in BAD if not all(packed_in) else BAD[:1]:
            obj = cls(**common(scheme, v))
            for k, kind in enumerate(kinds):
                setattr(obj, fields[k], value(kind) if packed_in[k] else bad)
            what = "%s with flags %d, skipped fields are %r" % (case, v, bad)
            ctx.eq(bytes(obj.pack()), bytes(want), what)
            ctx.eq(obj.calc_byte_size(), len(want), "size of %s" % what)
            for k in range(len(kinds)):
                if not packed_in[k]:
                    ctx.true(getattr(obj, fields[k]) is bad, "a skipped field was changed: %s" % what)
            ctx.step()
        ctx.outcome('packed')
        # unpack: as much data as is needed, or more
        need = max([BASE if total else 5] + [b for k, (a, b) in enumerate(spots) if read_in[k]])
        for length in sorted({need, need + 1, need + 9}):
            data = bytearray((0x61 + 3 * i) & 0x7f for i in range(length))
            data[:len(head(v))] = head(v)[:length]
            for obj in (cls(), used, cls(**dict((f, 'before') for f in fields))):
                result = obj.unpack(bytes(data))
                what = "%s with flags %d from %d bytes" % (case, v, length)
                for k, kind in enumerate(kinds):
                    got = getattr(obj, fields[k])
                    if read_in[k]:
                        part = bytes(data[spots[k][0]:spots[k][1]])
                        expect = {'byte': lambda: part[0], 'word': lambda: struct.unpack('>H', part)[0], 'text': lambda: part.decode(),
                                  'bytes': lambda: bytearray(part), 'list': lambda: list(struct.unpack('>2H', part)),
                                  'pair': lambda: Pair(x=part[0] * 256 + part[1], y=part[2] & 15, z=part[2] >> 4),
                                  'nibble': lambda: part[0] >> 4}[kind]()
                        ctx.true(same(got, expect), "field %d of %s: got %r instead of %r" % (k, what, got, expect))
                    else:
                        ctx.true(got is None, "field %d of %s was skipped but is %r" % (k, what, got))
                ctx.eq(dict((n, getattr(obj, n)) for n in common(scheme, v)), common(scheme, v), what)
                if static is None:
                    ctx.eq(-(-result // 1), max([BASE if total else 5] + [b for k, (a, b) in enumerate(spots) if read_in[k]]), "size of %s" % what)
                ctx.step()
        # one byte less: the last field that is there is cut
        if need > (BASE if total else 5):
            ctx.rejects(lambda: cls().unpack(bytes(data[:need - 1])), "%s with flags %d from %d bytes" % (case, v, need - 1))
        ctx.outcome('unpacked')
        ctx.state(kinds, conditions, names, layout, v)
    ctx.trace()


def gen_conditions(tier):
    every = sorted(CONDITIONS)
    some = ['absent', 'false', 'field', 'more', 'member', 'name']
    few = ['field', 'less', 'true'] if tier == 'quick' else ['field', 'less', 'true', 'false', 'method', 'len']

    def g():
        for layout in ('fixed', 'dynamic', 'moving', 'after'):
            for names in sorted(NAMES):
                for total in (0, 1):
                    if tier == 'quick' and total != (names in ('up', 'mid')):
                        continue
                    for p, u in itertools.product(every, repeat=2):
                        yield [['word'], [[p, u]], names, layout, total]
                        if p == u or tier != 'quick':
                            yield [['pair'], [[p, u]], names, layout, total]
                    for p, u in itertools.product(some, repeat=2):
                        for kinds in (['byte', 'word'], ['bytes', 'nibble']):
                            yield [kinds, [[p, p], [u, u]], names, layout, total]
                            if p != u:
                                yield [kinds, [[p, u], [u, p]], names, layout, total]
                    if tier == 'quick' and names in ('mid', 'reverse'):
                        continue
                    for p, q, r in itertools.product(few, repeat=3):
                        for kinds in (['byte', 'list', 'text'], ['text', 'pair', 'byte']):
                            yield [kinds, [[p, p], [q, q], [r, r]], names, layout, total]
                    for kind in sorted(SIZES):
                        for c in some:
                            yield [[kind], [[c, c]], names, layout, total]
    return g


# ---------------------------------------------------------------- every kind of field, with contents that can't be used

def raising(*args, **kwargs):
    raise ZeroDivisionError("a skipped field was looked at")


KINDS = {
    'uint': lambda w, **kw: uint_field(where=w(2), **kw),
    'int': lambda w, **kw: int_field(where=w(4), **kw),
    'odd': lambda w, **kw: le_uint_field(where=w(3), **kw),
    'float': lambda w, **kw: float_field(where=w(8), **kw),
    'str': lambda w, **kw: str_field(where=w(3), **kw),
    'utf': lambda w, **kw: str_field(where=w(2), encoding='utf-8', **kw),
    'bytes': lambda w, **kw: bytearray_field(where=w(3), **kw),
    'list': lambda w, **kw: list_field(b_uint16, n=2, where=w(4), **kw),
    'records': lambda w, **kw: list_field(Pair, n=2, where=w(6), **kw),
    'record': lambda w, **kw: buffer_field(Pair, where=w(3), **kw),
    'json': lambda w, **kw: json_field(where=w(5), **kw),
    'chosen': lambda w, **kw: buffer_field(Pair, unpack_selector=raising, where=w(3), **kw),
    'chosen list': lambda w, **kw: list_field(Pair, unpack_selector=raising, where=w(3), **kw),
    'computed': lambda w, **kw: uint_field(where=w(2), set_before_pack=raising, set_after_unpack=raising, **kw),
    'open bytes': lambda w, **kw: bytearray_field(where=w(None), **kw),
    'open str': lambda w, **kw: str_field(where=w(None), **kw),
    'open list': lambda w, **kw: list_field(Pair, where=w(None), **kw),
    'open record': lambda w, **kw: buffer_field(Pair, where=w(None), **kw),
    'open json': lambda w, **kw: json_field(where=w(None), **kw),
    'two places': lambda w, **kw: uint_field(where_when_pack=w(2), where_when_unpack=w(2), **kw),
}


def run_kind(case, ctx):
    """A skipped field: neither what it holds nor where it would be matters."""
    kind, where, condition, names, after = case
    flag, v, z = {'up': 'abc', 'down': 'cba', 'mid': 'bac'}[names]
    attrs = {}
    attrs[flag] = uint_field(where=bytes_ref[0])
    places = {'next': lambda n: bytes_ref[2:2 + n] if n is not None else bytes_ref[2:],
              'far': lambda n: bytes_ref[1000:1000 + n] if n is not None else bytes_ref[1000:],
              'by field': lambda n: bytes_ref[attrs[flag] + 2:attrs[flag] + 2 + n] if n is not None else bytes_ref[attrs[flag] + 2:],
              'parts': lambda n: bytes_ref[5:6] + bytes_ref[8:7 + n] if n is not None else bytes_ref[5] + bytes_ref[8:],
              'raises': lambda n: bytes_ref[num_ref(member_func_ref(raising)):(None if n is None else 1000)],
              }
    c = {'constant': lambda: False, 'field': lambda: attrs[flag] != 0, 'name': lambda: num_ref(getattr(self_ref, flag)) != 0}[condition]()
    attrs[v] = KINDS[kind](places[where], pack_if=c, unpack_if=c)
    attrs[z] = be_uint_field(where=bytes_ref[1:3] if not after else bytes_ref[after_ref(attrs[v]):after_ref(attrs[v]) + 2], default=0x4142)
    cls = record(attrs)
    for bad in BAD:
        o = cls(**{flag: 0, v: bad})
        start = 1
        if after:
            size = {'next': 2, 'by field': 2}[where]
            start = size
            if not kind.startswith('open'):
                probe = []
                KINDS[kind](lambda n: probe.append(n) or bytes_ref[0:n])
                start += probe[0]
        want = b'\0' * start + b'AB'
        if cls.byte_size is not None:
            want = want.ljust(cls.byte_size, b'\0')
        ctx.eq(bytes(o.pack()), want, "%s with %r" % (case, bad))
        ctx.eq(o.calc_byte_size(), len(want), "size of %s with %r" % (case, bad))
        ctx.true(getattr(o, v) is bad, "the skipped field of %s was changed" % (case,))
        for data in (b'\0' * start + b'AB', b'\0' * start + b'AB' + b'\xff' * 3, b'\0' * start + b'AB' + b'\xff' * 2000):
            for given in (None, bad):
                back = cls(**{v: given})
                back.unpack(data)
                ctx.eq((getattr(back, flag), getattr(back, z)), (0, 0x4142), "%s unpacked" % (case,))
                ctx.true(getattr(back, v) is None, "%s: the skipped field is %r" % (case, getattr(back, v)))
                ctx.step()
    ctx.state(*case)
    ctx.trace()
    ctx.outcome(where)


def gen_kinds():
    for kind in sorted(KINDS):
        for where in ('next', 'far', 'by field', 'parts', 'raises'):
            for condition in ('constant', 'field', 'name'):
                for names in ('up', 'down', 'mid'):
                    for after in (0, 1):
                        if after and where not in ('next', 'by field'):
                            continue
                        yield [kind, where, condition, names, after]


# ---------------------------------------------------------------- conditions on conditional fields

def run_chain(case, ctx):
    """Every field's condition is that another one has the value 1; the first one that there is a flag."""
    parents, names, how = case
    n = len(parents)
    order = list(range(n + 1)) if names == 'up' else list(range(n, -1, -1)) if names == 'down' else sorted(range(n + 1), key=lambda k: (k * 2 + 1) % (n + 2))
    name = ['v%d' % order[k] for k in range(n + 1)]
    attrs = {name[0]: uint_field(where=bytes_ref[0])}
    for k, parent in enumerate(parents):
        i = k + 1
        if how == 'name':
            c = num_ref(getattr(self_ref, name[parent])) == 1
        elif how == 'after':
            c = member_func_ref(lambda o, p=parent: getattr(o, name[p]) == 1)
        else:
            c = attrs[name[parent]] == 1
        kw = dict(pack_if=c, unpack_if=c)
        if how == 'after':
            kw['unpack_after'] = attrs[name[parent]]
        attrs[name[i]] = uint_field(where=bytes_ref[i], **kw)
    attrs['end'] = bytearray_field(where=bytes_ref[n + 1:])
    cls = record(attrs)
    for values in itertools.product((0, 1), repeat=n + 1):
        there = [True]
        for parent in parents:
            there.append(there[parent] and values[parent] == 1)
        data = bytearray(values) + b'!'
        back = cls()
        back.unpack(bytes(data))
        want = [values[k] if there[k] else None for k in range(n + 1)]
        what = "%s from %r" % (case, bytes(data))
        ctx.eq([getattr(back, x) for x in name], want, what)
        ctx.eq(back.end, bytearray(b'!'), what)
        # what was unpacked is packed again
        packed = bytearray(v or 0 for v in want) + b'!'
        ctx.eq(bytes(back.pack()), bytes(packed), "repacked %s" % what)
        ctx.state(parents, names, how, values)
        ctx.step()
    ctx.trace()
    ctx.outcome(how)


def run_chain_cut(case, ctx):
    """The same without other fields: data that ends after the last field that is there is enough."""
    parents, names = case
    n = len(parents)
    order = list(range(n + 1)) if names == 'up' else list(range(n, -1, -1))
    name = ['v%d' % order[k] for k in range(n + 1)]
    attrs = {name[0]: uint_field(where=bytes_ref[0])}
    for k, parent in enumerate(parents):
        c = attrs[name[parent]] == 1
        attrs[name[k + 1]] = uint_field(where=bytes_ref[k + 1], pack_if=c, unpack_if=c)
    cls = record(attrs)
    for values in itertools.product((0, 1), repeat=n + 1):
        there = [True]
        for parent in parents:
            there.append(there[parent] and values[parent] == 1)
        need = max(k for k in range(n + 1) if there[k]) + 1
        for size in range(n + 3):
            data = bytes((bytearray(values) + b'\x07\x07\x07')[:size])
            if size < need:
                ctx.rejects(lambda: cls().unpack(data), "%s from %r" % (case, data))
            else:
                o = cls()
                o.unpack(data)
                ctx.eq([getattr(o, x) for x in name], [values[k] if there[k] else None for k in range(n + 1)], "%s from %r" % (case, data))
                ctx.outcome('unpacked')
            ctx.step()
        ctx.state(parents, names, values)
    ctx.trace()


def trees(most):
    for n in range(1, most + 1):
        for parents in itertools.product(*[range(k + 1) for k in range(n)]):
            yield list(parents)


# ---------------------------------------------------------------- histories

def run_history(case, ctx):
    """What an instance packed or unpacked before doesn't matter."""
    style, depth = case[0], case[1]
    cls_attrs, fields, scheme = define(['word', 'text'], [('field', 'field'), ('more', 'more')], style, 'moving', True)
    cls = record(cls_attrs)
    ops = [(op, v) for op in ('unpack', 'pack', 'size') for v in range(4)]

    def state(v):
        out = common(scheme, v)
        for k, kind in enumerate(['word', 'text']):
            there = v & bit(k) if k == 0 else v >= 2
            out[fields[k]] = value(kind) if there else None
        return out

    def packed(v):
        body = b''
        if v & 1:
            body = b'\xb1\xb2'
        if v >= 2:
            body += b'xyz'
        return head(v, BASE + len(body)) + body
    for history in itertools.product(ops, repeat=depth):
        o = cls()
        for op, v in history:
            what = "%s in %s" % ((op, v), history)
            if op == 'unpack':
                o.unpack(packed(v))
                ctx.eq(dict((n, getattr(o, n)) for n in state(v)), state(v), what)
            else:
                for n, x in state(v).items():
                    setattr(o, n, x)
                if op == 'pack':
                    ctx.eq(bytes(o.pack()), packed(v), what)
                else:
                    ctx.eq(o.calc_byte_size(), len(packed(v)), what)
            ctx.step()
    ctx.state(*case)
    ctx.trace()
    ctx.outcome('ok')


# ---------------------------------------------------------------- the size of the input, and inherited fields

def run_input(case, ctx):
    """Fields that are there when there's enough data."""
    bounds, names = case
    order = range(len(bounds)) if names == 'up' else range(len(bounds) - 1, -1, -1)
    name = dict((k, 'v%d' % i) for i, k in enumerate(order))
    attrs = {'first': uint_field(where=bytes_ref[0])}
    for k, b in enumerate(bounds):
        attrs[name[k]] = uint_field(where=bytes_ref[k + 1], unpack_if=input_buffer_length >= b, default=9)
    cls = record(attrs)
    for size in range(0, len(bounds) + 4):
        data = bytes(bytearray(range(100, 100 + size)))
        there = [size >= b for b in bounds]
        need = max([1] + [k + 2 for k in range(len(bounds)) if there[k]])
        if size < need:
            ctx.rejects(lambda: cls().unpack(data), "%s from %d bytes" % (case, size))
        else:
            o = cls()
            o.unpack(data)
            ctx.eq([getattr(o, name[k]) for k in range(len(bounds))], [101 + k if there[k] else None for k in range(len(bounds))],
                   "%s from %d bytes" % (case, size))
            ctx.outcome('unpacked')
        ctx.state(bounds, names, size)
        ctx.step()


def run_inherited(case, ctx):
    """Conditional fields in base records, redefined, and in nested records and lists."""
    how, base_cond, own_cond, v = case
    conds = {'on': lambda f: True, 'off': lambda f: False, 'flag': lambda f: f == 1}
    holds = {'on': lambda: True, 'off': lambda: False, 'flag': lambda: v == 1}
    flag = uint_field(where=bytes_ref[0])
    base_attrs = {'flag': flag, 'x': be_uint_field(where=bytes_ref[after_ref(flag):after_ref(flag) + 2],
                                                  pack_if=conds[base_cond](flag), unpack_if=conds[base_cond](flag))}
    base = record(base_attrs)
    cls = base
    x_there = holds[base_cond]()
    y_there = None
    if how in ('extended', 'nested', 'list'):
        cls = record({'y': uint_field(where=bytes_ref[after_ref(base_attrs['x'])], pack_if=conds[own_cond](flag), unpack_if=conds[own_cond](flag))}, (base,))
        y_there = holds[own_cond]()
    elif how == 'redefined':
        cls = record({'x': be_uint_field(where=bytes_ref[after_ref(flag):after_ref(flag) + 2],
                                         pack_if=conds[own_cond](flag), unpack_if=conds[own_cond](flag))}, (base,))
        x_there = holds[own_cond]()
    values = {'flag': v, 'x': 0x1234 if x_there else None}
    want = struct.pack('B', v) + (b'\x12\x34' if x_there else b'')
    if y_there is not None:
        values['y'] = 0x56 if y_there else None
        if y_there:
            want = want.ljust(3, b'\0') + b'\x56'

    def fields(o):
        return dict((n, getattr(o, n)) for n in values)
    o = cls(**values)
    outer = None
    if how == 'nested':
        outer = record({'h': uint_field(where=bytes_ref[0]), 'o': buffer_field(cls, where=bytes_ref[1:])})
        want_outer = b'\x99' + want
        p = outer(h=0x99, o=o)
        ctx.eq(bytes(p.pack()), want_outer, "%s" % (case,))
        q = outer()
        q.unpack(want_outer)
        ctx.eq(fields(q.o), values, "%s" % (case,))
    elif how == 'list':
        outer = record({'n': uint_field(where=bytes_ref[0]), 'l': list_field(cls, n=2, where=bytes_ref[1:])})
        p = outer(n=0x99, l=[o, cls(**values)])
        ctx.eq(bytes(p.pack()), b'\x99' + want + want, "%s" % (case,))
        q = outer()
        q.unpack(b'\x99' + want + want)
        ctx.eq([fields(x) for x in q.l], [values, values], "%s" % (case,))
    ctx.eq(bytes(o.pack()), want, "%s" % (case,))
    back = cls()
    back.unpack(want)
    ctx.eq(fields(back), values, "%s" % (case,))
    ctx.state(*case)
    ctx.step()
    ctx.outcome(how)


def gen_inherited():
    for how in ('inherited', 'extended', 'redefined', 'nested', 'list'):
        for base_cond, own_cond in itertools.product(('on', 'off', 'flag'), repeat=2):
            for v in (0, 1, 2):
                yield [how, base_cond, own_cond, v]


def spaces(tier):
    quick = tier == 'quick'
    return [
        Space('chains', lambda: ([p, names, how] for p in trees(3 if quick else 5) for names in ('up', 'down', 'mid') for how in ('field', 'name', 'after')),
              run_chain, 'conditions on fields that are conditional', ['field', 'name', 'after']),
        Space('cut chains', lambda: ([p, names] for p in trees(4 if quick else 5) for names in ('up', 'down')), run_chain_cut,
              'the same with data that ends early', ['rejected', 'unpacked']),
        Space('kinds', gen_kinds, run_kind, 'skipped fields of all kinds', ['next', 'far', 'by field', 'parts', 'raises']),
        Space('conditions', gen_conditions(tier), run_conditions, 'pairs of conditions, layouts, names', ['packed', 'unpacked', 'rejected']),
        Space('histories', lambda: ([names, depth] for names in sorted(NAMES) for depth in ((1, 2, 3) if quick else (1, 2, 3, 4))), run_history,
              'histories of one instance', ['ok']),
        Space('input', lambda: ([list(b), names] for n in (1, 2, 3) for b in itertools.product(range(6), repeat=n) for names in ('up', 'down')), run_input,
              'conditions on the size of the data', ['rejected', 'unpacked']),
        Space('inherited', gen_inherited, run_inherited, 'inherited, redefined and nested', ['inherited', 'extended', 'redefined', 'nested', 'list']),
    ]
