"""C09: computed fields are resolved by their dependencies, once, and cycles are errors."""
import itertools
import operator
import struct
from mc.core import Space
from mc.rec import record
from infi.instruct.buffer import (Buffer, bytes_ref, uint_field, be_uint_field, be_int_field, float_field, bytearray_field,
                                  str_field, total_size, after_ref, len_ref, self_ref, num_ref, member_func_ref, min_ref, max_ref)
from infi.instruct.errors import InstructError

ID = 'C09'
RULE = ('a case is one directed graph of dependencies between the fields of a record (of values, positions, ends, total size and '
        'conditions) with one order of the field names, or one batch of arithmetic expressions; packed and unpacked with counted '
        'functions, and compared with an evaluation of the graph')
ASSUMPTIONS = ['functions have no side effects on the record']

STRIDE = 64


class Cycle(Exception):
    pass


class Evaluator(object):
    """Values of the nodes of a graph: func(node, get) computes a node, asking get(other) for others."""

    def __init__(self, func):
        self.func, self.done, self.open = func, {}, set()

    def get(self, node):
        if node in self.done:
            return self.done[node]
        if node in self.open:
            raise Cycle()
        self.open.add(node)
        try:
            self.done[node] = self.func(node, self.get)
        finally:
            self.open.discard(node)
        return self.done[node]

    def cyclic(self, node):
        try:
            self.get(node)
            return False
        except Cycle:
            return True


def expect_cycle(ctx, func, names, what):
    e = ctx.rejects(func, what + " has a cycle")
    texts = []
    while e is not None:
        ctx.true(not isinstance(e, (RecursionError, MemoryError)), "%s: %r instead of an error about the cycle" % (what, e))
        texts.append((isinstance(e, InstructError), str(e)))
        e = e.__cause__ or e.__context__
    if not any(lib and any(n in t for n in names) for lib, t in texts):
        ctx.fail("%s: the error doesn't tell a field of %s: %s", what, names, texts)
    ctx.outcome('cycle')


# ---------------------------------------------------------------- pack: labelled graphs

V, P, A, C, T = 'V', 'P', 'A', 'C', 'T'


def run_pack(case, ctx):
    """labels[i][j]: how field i depends on field j; total[i]: whether the value of field i depends on the total size."""
    labels, total, order, how = case
    n = len(labels)
    names = ['fld_%s' % 'abcd'[k] for k in order]
    counts = [0] * n

    def calc(i):
        def func(self, *args):
            counts[i] += 1
            return i + 1 + sum(args)
        return func

    attrs = dict(('calc%d' % i, calc(i)) for i in range(n))
    fields = []
    for i in range(n):
        def ref(j):
            return num_ref(getattr(self_ref, names[j])) if how == 'names' or j >= i else fields[j]
        args = []
        for j in range(n):
            if labels[i][j] == V:
                args.append(ref(j))
            elif labels[i][j] == A:
                if j >= i:
                    return
                args.append(after_ref(fields[j]))
        if total[i]:
            args.append(total_size)
        start = STRIDE * i
        for j in range(n):
            if labels[i][j] == P:
                start = start + min_ref(ref(j), 15)
        kw = {}
        for j in range(n):
            if labels[i][j] == C:
                if 'pack_if' in kw:
                    return
                kw['pack_if'] = ref(j) > 2
        f = be_uint_field(where=bytes_ref[start:start + 4], set_before_pack=getattr(self_ref, 'calc%d' % i)(*args), **kw)
        fields.append(f)
        attrs[names[i]] = f
    cls = record(attrs)
    what = "%s" % (case,)
    if cls.byte_size is not None and any(total):
        size = cls.byte_size       # known in advance
    else:
        size = None

    def model(node, get):
        kind, i = node
        if kind == 'value':
            v = i + 1
            for j in range(n):
                if labels[i][j] == V:
                    v += get(('value', j))
                elif labels[i][j] == A:
                    v += get(('start', j)) + 4
            if total[i]:
                v += get(('total', 0))
            return v
        if kind == 'start':
            return STRIDE * i + sum(min(get(('value', j)), 15) for j in range(n) if labels[i][j] == P)
        if kind == 'on':
            return all(get(('value', j)) > 2 for j in range(n) if labels[i][j] == C)
        if kind == 'total':
            if size is not None:
                return size
            return max([0] + [get(('start', j)) + 4 for j in range(n) if get(('on', j))])

    ev = Evaluator(model)
    cyclic = False
    content = {}
    for i in range(n):
        # all conditions are evaluated, and everything about the fields that are on
        if ev.cyclic(('on', i)):
            cyclic = True
        elif ev.get(('on', i)):
            for k in ('value', 'start'):
                cyclic = ev.cyclic((k, i)) or cyclic
            if not cyclic:
                content[i] = (ev.get(('start', i)), ev.get(('value', i)))
    obj = cls()
    for attempt in range(2):
        for i in range(n):
            counts[i] = 0
        if cyclic:
            expect_cycle(ctx, obj.pack, names, what)
            ctx.true(max(counts) <= 1, "%s: functions were called %s times before the error" % (what, counts))
            for i in range(n):
                if counts[i] and ev.cyclic(('value', i)):
                    ctx.fail("%s: a value was computed for a field that depends on itself", what)
        else:
            packed = obj.pack()
            want = bytearray(max([cls.byte_size or 0] + [s + 4 for s, v in content.values()]))
            for s, v in content.values():
                want[s:s + 4] = struct.pack('>L', v)
            ctx.eq(bytes(packed), bytes(want), "packed " + what)
            for i in range(n):
                used = ('value', i) in ev.done
                ctx.eq(counts[i], int(used), "calls of the function of field %d of %s" % (i, what))
                if used:
                    ctx.eq(getattr(obj, names[i]), ev.get(('value', i)), "value of field %d of %s" % (i, what))
            ctx.outcome('value')
    ctx.state(case)
    ctx.step(2)
    ctx.trace()


def gen_pack(n, alphabet, totals, orders, hows=('names', 'objects'), diagonal=True):
    def gen():
        for cells in itertools.product(['-'] + alphabet, repeat=n * n if diagonal else n * (n - 1)):
            it = iter(cells)
            labels = [[next(it) if diagonal or i != j else '-' for j in range(n)] for i in range(n)]
            if any(labels[i][j] == A and j >= i for i in range(n) for j in range(n)):
                continue
            for total in (itertools.product([0, 1], repeat=n) if totals else [[0] * n]):
                for order in orders:
                    for how in hows:
                        yield [labels, list(total), list(order), how]
    return gen


# ---------------------------------------------------------------- unpack: positions that depend on values

def run_unpack(case, ctx):
    graph, order, how = case          # graph[i][j]: the position of field i depends on the value of field j
    n = len(graph)
    names = ['fld_%s' % 'abcd'[k] for k in order]
    attrs, fields, counts = {}, [], [0] * n
    for i in range(n):
        start = 16 * i
        for j in range(n):
            if graph[i][j]:
                start = start + (num_ref(getattr(self_ref, names[j])) if how == 'names' or j >= i else fields[j])

        def post(v, i=i):
            counts[i] += 1
            return v + 1
        f = uint_field(where=bytes_ref[start], set_after_unpack=post)
        fields.append(f)
        attrs[names[i]] = f
    cls = record(attrs)
    what = "%s" % (case,)
    data = bytes(bytearray((k * 7 + k // 16) % 3 for k in range(16 * n)))

    ev = Evaluator(lambda i, get: data[16 * i + sum(get(j) for j in range(n) if graph[i][j])] + 1)
    cyclic = any([ev.cyclic(i) for i in range(n)])
    for attempt in range(2):
        counts[:] = [0] * n
        obj = cls()
        if cyclic:
            expect_cycle(ctx, lambda: obj.unpack(data), names, what)
            ctx.true(max(counts) <= 1, "%s: functions were called %s times before the error" % (what, counts))
        else:
            obj.unpack(data)
            ctx.eq([getattr(obj, nm) for nm in names], [ev.get(i) for i in range(n)], "unpacked " + what)
            ctx.eq(counts, [1] * n, "calls of the functions of " + what)
            ctx.outcome('value')
    # when packing, all values are given
    values = [k * 2 % 5 for k in range(1, n + 1)]
    packed = cls(**dict(zip(names, values))).pack()
    starts = [16 * i + sum(values[j] for j in range(n) if graph[i][j]) for i in range(n)]
    want = bytearray(max(starts) + 1)
    for s, v in zip(starts, values):
        want[s] = v
    ctx.eq(bytes(packed), bytes(want), "packed " + what)
    ctx.state(case)
    ctx.step(3)
    ctx.trace()


def gen_unpack(n, orders, hows=('names', 'objects')):
    def gen():
        for cells in itertools.product([0, 1], repeat=n * n):
            graph = [list(cells[i * n:i * n + n]) for i in range(n)]
            for order in orders:
                for how in hows:
                    yield [graph, list(order), how]
    return gen


# ---------------------------------------------------------------- expressions

OPS = {'+': operator.add, '-': operator.sub, '*': operator.mul, '//': operator.floordiv, '/': operator.truediv,
       '<': operator.lt, '<=': operator.le, '>': operator.gt, '>=': operator.ge, '==': operator.eq, '!=': operator.ne,
       'min': None, 'max': None}
LEAVES = ['a', 'b', 'len', 'func', 2, -3]
VALUES = [(0, 1, ''), (2, 2, 'xyz'), (7, 3, 'pq'), (1, 0, 'w')]


def build(expr, leaves, mn, mx, neg):
    if not isinstance(expr, (list, tuple)):
        return leaves.get(expr, expr) if isinstance(expr, str) else expr
    op = expr[0]
    args = [build(e, leaves, mn, mx, neg) for e in expr[1:]]
    if op == 'neg':
        return neg(args[0])
    if op in ('min', 'max'):
        return (mn if op == 'min' else mx)(*args)
    return OPS[op](*args)


def has_ref(expr):
    if isinstance(expr, (list, tuple)):
        return any(has_ref(e) for e in expr[1:])
    return isinstance(expr, str)


def has_refs(expr):
    """All operations have an operand that's not a constant."""
    return has_ref(expr) and all(has_refs(e) for e in expr[1:] if isinstance(e, (list, tuple))) if isinstance(expr, (list, tuple)) else has_ref(expr)


def run_expr(case, ctx):
    exprs, naming = case
    a_name, b_name, t_name = ('a', 'b', 't') if naming == 'up' else ('z', 'y', 'x')
    for expr in exprs:
        if not has_refs(expr):
            continue
        a = be_int_field(where=bytes_ref[0])
        b = be_int_field(where=bytes_ref[1])
        calls = []
        if naming == 'up':
            leaves = {'a': a, 'b': b, 'len': len_ref(self_ref.t), 'func': num_ref(member_func_ref(lambda o: calls.append(1) or getattr(o, a_name) * 3))}
        else:
            leaves = {'a': num_ref(self_ref.z), 'b': num_ref(self_ref.y), 'len': len_ref('x'),
                      'func': num_ref(self_ref.compute(self_ref.z))}
        ref = build(expr, leaves, min_ref, max_ref, operator.neg)
        attrs = {a_name: a, b_name: b, t_name: str_field(where=bytes_ref[20:]),
                 'v': float_field(where=bytes_ref[4:12], endian='big', set_before_pack=ref),
                 'w': float_field(where=bytes_ref[12:20], endian='big', set_before_pack=ref, set_after_unpack=ref, unpack_after=[a]),
                 'compute': lambda self, v: calls.append(1) or v * 3}
        cls = record(attrs)
        for av, bv, text in VALUES:
            what = "%s with %s" % (expr, (av, bv, text))
            try:
                want = build(expr, {'a': av, 'b': bv, 'len': len(text), 'func': av * 3}, min, max, operator.neg)
            except ZeroDivisionError:
                want = None
            obj = cls(**{a_name: av, b_name: bv, t_name: text})
            if want is None:
                ctx.rejects(obj.pack, what)
                continue
            del calls[:]
            data = obj.pack()
            ctx.true(len(calls) <= 1, "%s: the function was called %d times" % (what, len(calls)))
            ctx.eq((obj.v, type(obj.v)), (want, type(want)), what)
            ctx.eq(bytes(data), struct.pack('>bbxxdd', av, bv, want, want) + text.encode(), "packed " + what)
            del calls[:]
            back = cls()
            back.unpack(bytes(data))
            ctx.true(len(calls) <= 1, "%s: the function was called %d times by unpack" % (what, len(calls)))
            ctx.eq((back.v, back.w), (want, want), "unpacked " + what)
            ctx.step(2)
            ctx.outcome('expression')
        ctx.state(repr(expr), naming)


def expressions(depth, ops, leaves):
    if depth == 0:
        for leaf in leaves:
            yield leaf
        return
    smaller = list(expressions(depth - 1, ops, leaves))
    for e in smaller:
        if isinstance(e, (list, str)):
            yield ['neg', e]
    for op in ops:
        for x in smaller:
            for y in (smaller if depth == 1 else LEAVES[:2] + LEAVES[4:5]):
                yield [op, x, y]
                if depth > 1:
                    yield [op, y, x]
    if depth == 1:
        for op in ('min', 'max'):
            yield [op, 'a', 2, 'b']
            yield [op, 1, 'len', 'a', 'b']


def gen_expr(depth, ops, leaves, batch=12):
    def gen():
        for naming in ('up', 'down'):
            todo = []
            for e in expressions(depth, ops, leaves):
                todo.append(e)
                if len(todo) == batch:
                    yield [todo, naming]
                    todo = []
            if todo:
                yield [todo, naming]
    return gen


# ---------------------------------------------------------------- fields that are unpacked after others

def run_after(case, ctx):
    """A field that looks at others by itself finds their values if it's unpacked after all of them."""
    order, form, use = case
    n = len(order) - 1
    names = ['fld_%s' % 'abcde'[k] for k in order]
    seen = []

    def look(obj, *args):
        now = [getattr(obj, name) for name in names[:n]]
        seen.append(now)
        return now
    values = dict((names[i], 3 + i) for i in range(n))
    first = [uint_field(where=bytes_ref[i], set_after_unpack=lambda v: v + 100) for i in range(n)]
    after = {'list': list, 'tuple': tuple, 'down': lambda x: list(reversed(x)), 'twice': lambda x: list(x) + list(x)}[form](first)
    if form == 'list' and n == 1:
        after = first[0]
    kw = dict(where=bytes_ref[n:n + 1], unpack_after=after)
    if use == 'position':
        kw.pop('where')
        kw.update(where_when_pack=bytes_ref[n:n + 1],
                  where_when_unpack=bytes_ref[num_ref(member_func_ref(lambda obj: look(obj) and n)):n + 1])
    elif use == 'condition':
        kw.update(unpack_if=member_func_ref(lambda obj: bool(look(obj))))
    else:
        kw.update(set_after_unpack=member_func_ref(lambda obj: sum(look(obj)) + 1000))
    attrs = dict(zip(names, first))
    attrs[names[n]] = uint_field(**kw)
    cls = record(attrs)
    data = bytes(range(3, 3 + n)) + b'\x63'
    what = "%s" % (case,)
    obj = cls()
    obj.unpack(data + b'\x77')
    want = [103 + i for i in range(n)]
    ctx.eq(seen, [want], "values that are seen by " + what)
    ctx.eq([getattr(obj, name) for name in names], want + [sum(want) + 1000 if use == 'value' else 0x63], "unpacked " + what)
    ctx.state(case)
    ctx.step()
    ctx.outcome('value')
    ctx.trace()


def gen_after(n):
    def gen():
        for size in range(1, n + 1):
            for order in itertools.permutations(range(size + 1)):
                for form in ('list', 'tuple', 'down', 'twice'):
                    for use in ('position', 'condition', 'value'):
                        yield [list(order), form, use]
    return gen


# ---------------------------------------------------------------- chains of positions

def run_chain(case, ctx):
    kinds, order, shared = case
    n = len(kinds)
    names = ['fld_%s' % 'abcde'[k] for k in order]
    attrs, previous, calls = {}, None, []
    values, want = {}, b''
    extra = member_func_ref(lambda o: calls.append(1) or 2)
    for i, kind in enumerate(kinds):
        start = after_ref(previous) if previous is not None else 0
        if shared:
            start = start + num_ref(extra)
            want += b'\0\0'
        if kind == 'open':
            f, v = bytearray_field(where_when_pack=bytes_ref[start:], where_when_unpack=bytes_ref[start:start + i + 1]), bytearray([65 + i] * (i + 1))
        elif kind == 'blob':
            f, v = bytearray_field(where=bytes_ref[start:start + 2]), bytearray([i, 255 - i])
        else:
            f, v = uint_field(where=bytes_ref[start]), 128 + i
        attrs[names[i]] = previous = f
        values[names[i]] = v
        want += bytes(v) if isinstance(v, bytearray) else bytes([v])
    cls = record(attrs)
    del calls[:]
    packed = cls(**values).pack()
    what = "%s" % (case,)
    ctx.eq(bytes(packed), want, "packed " + what)
    ctx.eq(len(calls), int(shared), "calls of the function, packing " + what)
    del calls[:]
    obj = cls()
    obj.unpack(want + b'\xee\xdd')
    ctx.eq(len(calls), int(shared), "calls of the function, unpacking " + what)
    ctx.eq(dict((k, getattr(obj, k)) for k in values), values, "unpacked " + what)
    ctx.state(case)
    ctx.step(2)
    ctx.outcome('value')
    ctx.trace()


def gen_chain(n):
    def gen():
        for kinds in itertools.product(['open', 'blob', 'byte'], repeat=n):
            for order in itertools.permutations(range(n)):
                for shared in (False, True):
                    yield [list(kinds), list(order), shared]
    return gen


# ---------------------------------------------------------------- cycles of other kinds, and long chains

def run_special(case, ctx):
    kind, order = case
    x, y = ('fld_a', 'fld_b') if order == 'up' else ('fld_b', 'fld_a')
    packs = unpacks = True       # whether that's a cycle
    if kind == 'length of itself':
        attrs = {x: uint_field(where=bytes_ref[0], set_before_pack=num_ref(len_ref(getattr(self_ref, x)))), y: uint_field(where=bytes_ref[1])}
        unpacks = False
    elif kind == 'total size in an open place after it':
        n = be_uint_field(where=bytes_ref[0:num_ref(getattr(self_ref, y))], set_before_pack=total_size)
        attrs = {x: n, y: uint_field(where=bytes_ref[5], set_before_pack=num_ref(getattr(self_ref, x)))}
        unpacks = False
    elif kind == 'size depends on content':
        attrs = {x: bytearray_field(where=bytes_ref[1:1 + len_ref(getattr(self_ref, x))]), y: uint_field(where=bytes_ref[0])}
        packs = False
    elif kind == 'positions of each other':
        attrs = {x: uint_field(where=bytes_ref[num_ref(getattr(self_ref, y))]), y: uint_field(where=bytes_ref[8 + num_ref(getattr(self_ref, x))])}
        packs = False
    elif kind == 'condition on itself':
        attrs = {x: uint_field(where=bytes_ref[0], pack_if=num_ref(getattr(self_ref, x)) > 0, set_before_pack=num_ref(getattr(self_ref, y))),
                 y: uint_field(where=bytes_ref[1], set_before_pack=num_ref(getattr(self_ref, x)))}
        unpacks = False
    elif kind == 'read condition on each other':
        attrs = {x: uint_field(where=bytes_ref[0]), y: uint_field(where=bytes_ref[1:1 + num_ref(getattr(self_ref, y))], unpack_if=num_ref(getattr(self_ref, y)) > 0)}
        packs = False
    elif isinstance(kind, list) and kind[0] == 'cycle':
        # a chain of values or of positions that leads into a cycle
        what, chain, cycle, how = kind
        n = chain + cycle
        names = ['fld_%02d' % (k if order == 'up' else n - k) for k in range(n)]
        attrs = {'inc': lambda self, v: v + 1}
        for k in range(n):
            after = getattr(self_ref, names[k + 1 if k + 1 < n else chain])
            if how == 'value':
                attrs[names[k]] = be_uint_field(where=bytes_ref[2 * k:2 * k + 2], set_before_pack=self_ref.inc(after) if k % 2 else num_ref(after) + 1)
            else:
                attrs[names[k]] = uint_field(where=bytes_ref[k + num_ref(after)])
        cls = record(attrs)
        if how == 'value':
            expect_cycle(ctx, lambda: cls().pack(), names, "packing %s" % kind)
        else:
            expect_cycle(ctx, lambda: cls().unpack(bytes(4 * n)), names, "unpacking %s" % kind)
        ctx.state(kind, order)
        return
    elif isinstance(kind, list) and kind[0] == 'constant':
        # a value that is set before packing, whatever it is
        value = kind[1]
        attrs = {x: uint_field(where=bytes_ref[0], set_before_pack=value, default=9), y: uint_field(where=bytes_ref[1], set_before_pack=num_ref(getattr(self_ref, x)) + 1)}
        cls = record(attrs)
        for obj in (cls(), cls(**{x: 7}), cls(**{x: 0, y: 3})):
            ctx.eq((list(obj.pack()), getattr(obj, x), getattr(obj, y)), ([value, value + 1], value, value + 1), "packed with %s" % kind)
        ctx.outcome('value')
        ctx.state(kind, order)
        return
    elif isinstance(kind, list) and kind[0] == 'arguments':
        # a function of the record with arguments in any form
        def given(self, *args, **kwargs):
            calls.append((args, kwargs))
            return sum(a * 3 ** k for k, a in enumerate(args)) + sum(v * (ord(k[-1]) - ord('a') + 5) for k, v in kwargs.items())
        calls = []
        forms = {'c': 4, 'f': getattr(self_ref, x), 'n': num_ref(getattr(self_ref, x)) + 1}
        args, kwargs = [forms[c] for c in kind[1]], dict(('kw_' + 'abc'[k], forms[c]) for k, c in enumerate(kind[2]))
        values = {'c': 4, 'f': 6, 'n': 7}
        want = tuple(values[c] for c in kind[1]), dict(('kw_' + 'abc'[k], values[c]) for k, c in enumerate(kind[2]))
        number = given(None, *want[0], **want[1])
        attrs = {x: uint_field(where=bytes_ref[0]), y: be_uint_field(where=bytes_ref[1:3], set_before_pack=self_ref.given(*args, **kwargs),
                                                                     set_after_unpack=self_ref.given(*args, **kwargs)), 'given': given}
        cls = record(attrs)
        obj = cls(**{x: 6})
        del calls[:]
        ctx.eq(bytes(obj.pack()), struct.pack('>BH', 6, number), "packed with %s" % kind)
        ctx.eq(calls, [want], "arguments when packing with %s" % kind)
        del calls[:]
        obj = cls()
        obj.unpack(b'\x06\x01\x02')
        ctx.eq((getattr(obj, x), getattr(obj, y), calls), (6, number, [want]), "unpacked with %s" % kind)
        ctx.outcome('value')
        ctx.state(kind, order)
        return
    else:
        # a long chain, resolved in the order of names or against it
        n = kind
        names = ['fld_%02d' % (k if order == 'up' else n - k) for k in range(n)]
        calls = []
        attrs = {'inc': lambda self, v: calls.append(1) or v + 1}
        for k in range(n):
            attrs[names[k]] = be_uint_field(where=bytes_ref[2 * k:2 * k + 2],
                                            set_before_pack=self_ref.inc(getattr(self_ref, names[k - 1])) if k else 5)
        cls = record(attrs)
        ctx.eq(bytes(cls().pack()), struct.pack('>%dH' % n, *range(5, 5 + n)), "chain of %d" % n)
        ctx.eq(len(calls), n - 1, "calls")
        ctx.outcome('value')
        return
    cls = record(attrs)
    if packs:
        expect_cycle(ctx, lambda: cls(**{y: 1}).pack(), [x, y], "packing: %s" % kind)
    if unpacks:
        expect_cycle(ctx, lambda: cls().unpack(bytes(32)), [x, y], "unpacking: %s" % kind)
    ctx.state(case)


def gen_special():
    for kind in ('length of itself', 'total size in an open place after it', 'size depends on content', 'positions of each other',
                 'condition on itself', 'read condition on each other', 2, 10, 30):
        for order in ('up', 'down'):
            yield [kind, order]
    for order in ('up', 'down'):
        for how in ('value', 'position'):
            for chain, cycle in [(0, n) for n in range(1, 8)] + [(n, 2) for n in (1, 2, 5, 10, 20, 30)] + [(0, 15), (0, 30), (5, 20)]:
                yield [['cycle', chain, cycle, how], order]
        for value in (0, 1, 254):
            yield [['constant', value], order]
        for n in range(3):
            for m in range(3):
                for args in itertools.product('cfn', repeat=n):
                    for kwargs in itertools.product('cfn', repeat=m):
                        yield [['arguments', list(args), list(kwargs)], order]


LARGE = {'chain': (64, 24)}


def spaces(tier):
    quick = tier == 'quick'
    p2, p3, p4 = [list(itertools.permutations(range(n))) for n in (2, 3, 4)]
    arith = ['+', '-', '*', '//', '/', '<', '<=', '>', '>=', '==', '!=', 'min', 'max']
    both = ['value', 'cycle']
    out = [
        Space('special', gen_special, run_special, 'cycles of other kinds, and long chains', both),
        Space('pack2', gen_pack(2, [V, P, A, C], True, p2), run_pack,
              'all graphs on two fields with labelled edges, and total size', both),
        Space('pack3', gen_pack(3, [V], False, p3, ['names']), run_pack, 'all graphs of values on three fields x name orders', both),
        Space('unpack3', gen_unpack(3, p3, ['names'] if quick else ['names', 'objects']), run_unpack,
              'all graphs of positions on three fields x name orders', both),
        Space('after', gen_after(3 if quick else 4), run_after, 'fields that are unpacked after up to three others x name orders', ['value']),
        Space('chain', gen_chain(3), run_chain, 'fields one after another x name orders', ['value']),
        Space('expr1', gen_expr(1, arith, LEAVES), run_expr, 'all expressions of one operator', ['expression', 'rejected']),
    ]
    if quick:
        out += [
            Space('pack3vp', gen_pack(3, [V, P], False, [p3[0], p3[5]], ['names'], diagonal=False), run_pack,
                  'graphs on three fields with two kinds of edges, without edges of a field to itself', both),
            Space('expr2', gen_expr(2, ['+', '-', '//', 'max', '<='], ['a', 'b', 2]), run_expr, 'expressions of two operators', ['expression']),
        ]
    else:
        out += [
            Space('pack3vpact', gen_pack(3, [V, P, A, C], True, [p3[0], p3[5]], ['names'], diagonal=False), run_pack,
                  'graphs on three fields with all kinds of edges and total size, without edges of a field to itself', both),
            Space('pack3vp', gen_pack(3, [V, P], False, p3, ['names', 'objects'], diagonal=True), run_pack,
                  'graphs on three fields with two kinds of edges', both),
            Space('pack4', gen_pack(4, [V], False, [p4[0], p4[23], p4[9]], ['names']), run_pack,
                  'all graphs of values on four fields x three name orders', both),
            Space('unpack4', gen_unpack(4, [p4[0], p4[23], p4[9]], ['names']), run_unpack, 'all graphs of positions on four fields', both),
            Space('chain4', gen_chain(4), run_chain, 'four fields one after another x name orders', ['value']),
            Space('expr2', gen_expr(2, arith, LEAVES), run_expr, 'expressions of two operators', ['expression']),
        ]
    return out
