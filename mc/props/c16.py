"""C16: strings, buffers and arrays of structs keep content and length."""
import io
import itertools
import struct
from mc.core import Space
from mc import sfamily
from mc.sfamily import parse, construct, same, show
from infi.instruct import *
from infi.instruct.string import *
from infi.instruct.array import FixedSizeArrayMarshal, VarSizeArrayMarshal, SumSizeArrayMarshal
from infi.instruct.struct import Field, Struct

ID = 'C16'
RULE = ('a case is one definition (kind, size or prefix type, padding, direction, element type) with all contents over a small alphabet up '
        'to one more than the size, and lengths at the limits of the prefix; as marshals and as fields between other fields')
ASSUMPTIONS = ['which side is padded is not specified for strings that are padded on both sides',
               'padding that is longer than a byte is not specified',
               'content that only fits after its padding was stripped may be stripped or rejected']

NONE, RIGHT, LEFT, BOTH = PADDING_DIRECTION_NONE, PADDING_DIRECTION_RIGHT, PADDING_DIRECTION_LEFT, PADDING_DIRECTION_BOTH
DIRECTIONS = {'none': NONE, 'right': RIGHT, 'left': LEFT, 'both': BOTH}


def strip(data, direction, padding):
    a, b = 0, len(data)
    if direction in ('right', 'both'):
        while b > a and data[b - 1:b] == padding:
            b -= 1
    if direction in ('left', 'both'):
        while a < b and data[a:a + 1] == padding:
            a += 1
    return data[a:b]


def contents(alphabet, up_to):
    for n in range(up_to + 1):
        for t in itertools.product(alphabet, repeat=n):
            yield b''.join(t)


class Form(object):
    """A marshal by itself and as a field between others."""

    def __init__(self, marshal, field):
        self.marshal = marshal
        self.cls = type(Struct)('S', (Struct,), dict(_fields_=[UBInt8('before'), field, UBInt8('after')], __module__='case'))

    def write(self, v):
        """What both ways write; raises if both do."""
        results = []
        for f in (lambda: self.marshal.write_to_string(v), lambda: self.cls(before=1, v=v, after=2).to_bytes()):
            try:
                results.append(bytes(f()))
            except Exception as e:
                results.append(e)
        a, b = results
        if isinstance(a, Exception) and isinstance(b, Exception):
            raise a
        if isinstance(a, Exception) or isinstance(b, Exception) or b != b'\x01' + a + b'\x02':
            raise AssertionError("as a marshal: %r, as a field: %r" % (a, b))
        return a

    def read(self, data):
        a = self.marshal.create_from_string(data)
        stream = io.BytesIO(b'\x01' + data + b'\x02\x03\x04')
        b = self.cls.create_from_stream(stream)
        if (b.before, b.after, stream.tell()) != (1, 2, len(data) + 2) or not (a == b.v and type(a) == type(b.v)):
            raise AssertionError("as a marshal: %r, as a field: %r, end of stream %d" % (a, show(b), stream.tell()))
        return a

    def read_fails(self, ctx, data, what):
        ctx.rejects(lambda: self.marshal.create_from_string(data), what)
        ctx.rejects(lambda: self.cls.create_from_string(b'\x01' + data), what + ' in a struct')

    def sizes(self, ctx, v, n, what):
        ctx.eq((self.marshal.sizeof(v), self.cls.sizeof(self.cls(before=0, v=v, after=0))), (n, n + 2), "size of " + what)


# ---------------------------------------------------------------- padded strings and fixed buffers

def run_padded(case, ctx):
    size, direction, padding, kind = case
    padding = padding.encode('latin1')
    if kind == 'buffer':
        form = Form(FixedSizeBufferMarshal(size), FixedSizeBuffer('v', size))
    elif kind == 'default':
        form = Form(PaddedStringMarshal(size), FixedSizeString('v', size))
    else:
        form = Form(PaddedStringMarshal(size, padding, DIRECTIONS[direction]), PaddedString('v', size, padding, DIRECTIONS[direction]))
    letters = sorted(set([padding, b'\0', b'a', b'\xe9'])) if kind != 'buffer' else [b'\0', b'a', b' ']
    for content in contents(letters, size + 2 if size < 3 else size + 1):
        what = "%s with %r" % (case, content)
        stripped = strip(content, direction, padding)
        try:
            got = form.write(content)
        except AssertionError:
            raise
        except Exception:
            ctx.true(len(stripped) > size or (direction == 'none' and len(stripped) < size) or len(content) > size,
                     what + " was rejected")
            ctx.outcome('rejected')
            continue
        if len(stripped) > size or (direction == 'none' and len(stripped) != size):
            ctx.fail("%s doesn't fit, but was written as %r", what, got)
        if direction == 'both':
            ctx.true(len(got) == size and strip(got, direction, padding) == stripped, "%s written as %r" % (what, got))
        else:
            fill = padding or b'\0'
            ctx.eq(got, stripped.rjust(size, fill) if direction == 'left' else stripped.ljust(size, fill), "written " + what)
        ctx.eq(form.read(got), stripped, "read " + what)
        form.sizes(ctx, content, size, what)
        ctx.outcome('padded' if len(stripped) < size else 'full')
        ctx.state(case, content)
        ctx.step(3)
    for data in contents(letters, size):
        if len(data) == size:          # all data of the size
            ctx.eq(form.read(data), strip(data, direction, padding), "%s read from %r" % (case, data))
            ctx.step()
        else:
            form.read_fails(ctx, data, "%s read from %r" % (case, data))
    ctx.trace()


def gen_padded(sizes):
    def gen():
        for size in sizes:
            yield [size, 'none', '', 'buffer']
            yield [size, 'right', '\0', 'default']
            for direction in ('right', 'left', 'both', 'none'):
                for padding in ('\0', ' ', 'a', '\xe9'):
                    yield [size, direction, padding, 'string']
    return gen


# ---------------------------------------------------------------- strings and buffers with a prefix

PREFIX = {'UBInt8': (UBInt8, 'B', 0, 255), 'ULInt16': (ULInt16, '<H', 0, 65535), 'UBInt16': (UBInt16, '>H', 0, 65535),
          'SBInt8': (SBInt8, 'b', -128, 127), 'UBInt32': (UBInt32, '>L', 0, None), 'SLInt16': (SLInt16, '<h', -32768, 32767),
          'ULInt64': (ULInt64, '<Q', 0, None)}


def run_var(case, ctx):
    prefix, direction, padding, kind = case
    m, fmt, lo, hi = PREFIX[prefix]
    padding = padding.encode('latin1')
    if kind == 'buffer':
        form = Form(VarSizeBufferMarshal(m), VarSizeBuffer('v', m))
    elif kind == 'default':
        form = Form(VarSizeStringMarshal(m), VarSizeString('v', m))
    else:
        form = Form(VarSizeStringMarshal(m, padding, DIRECTIONS[direction]), VarSizeString('v', m, padding, DIRECTIONS[direction]))
    todo = list(contents(sorted(set([padding or b'z', b'\0', b'b', b'\xff'])), 3))
    if hi is not None and hi < 1000:
        todo += [b'x' * (hi + d) for d in (-1, 0, 1, 2)]
    elif hi is not None and kind != 'string':
        todo += [b'x' * (hi + d) for d in (0, 1)]
    todo.append(b'y' * 300 + b'\0' + b'q')
    for content in todo:
        what = "%s with %r of %d" % (case, content[:8], len(content))
        stripped = strip(content, direction, padding)
        if hi is not None and len(stripped) > hi:
            ctx.rejects(lambda: form.write(content), what)
            continue
        got = form.write(content)
        want = struct.pack(fmt, len(stripped)) + stripped
        ctx.eq(got, want, "written " + what)
        ctx.eq(form.read(want), stripped, "read " + what)
        form.sizes(ctx, content, len(want), what)
        ctx.outcome('empty' if not stripped else 'content')
        ctx.state(case, content)
        ctx.step(3)
        raw = struct.pack(fmt, len(content)) + content if hi is None or len(content) <= hi else None
        if raw is not None and raw != want:       # padding that's on the wire is stripped
            ctx.eq(form.read(raw), stripped, "read %r with %s" % (raw[:8], case))
        if len(content) < 4 and content:
            form.read_fails(ctx, struct.pack(fmt, len(content)) + content[:-1], "%s read from a byte less than %r" % (case, content))
    if lo < 0:
        for n in (-1, -2, lo):
            form.read_fails(ctx, struct.pack(fmt, n) + b'abcdef', "%s with a length of %d" % (case, n))
    ctx.trace()


def gen_var(prefixes):
    def gen():
        for prefix in prefixes:
            yield [prefix, 'none', '', 'buffer']
            yield [prefix, 'right', '\0', 'default']
            for direction in ('right', 'left', 'both', 'none'):
                for padding in ('\0', ' '):
                    yield [prefix, direction, padding, 'string']
    return gen


# ---------------------------------------------------------------- arrays

def pick(element, pattern):
    e = element.values()
    return [e[k % len(e)] for k in pattern]


def array_form(kind, n, element, prefix):
    m = PREFIX[prefix][0]
    e = element.marshal()
    if kind == 'farr':
        return Form(FixedSizeArrayMarshal(n, e), FixedSizeArray('v', n, e))
    if kind == 'varr':
        return Form(VarSizeArrayMarshal(m, e), VarSizeArray('v', m, e))
    return Form(SumSizeArrayMarshal(m, e), SumSizeArray('v', m, e))




def run_array(case, ctx):
    kind, n, prefix, expr, up_to = case
    element = parse(expr)
    form = array_form(kind, n, element, prefix)
    m, fmt, lo, hi = PREFIX[prefix]
    for length in range(up_to + 1):
        for pattern in itertools.product(range(min(2, len(element.values()))), repeat=length):
            values = pick(element, pattern)
            what = "%s with %s" % (case, values)
            if kind == 'farr' and length != n:
                ctx.rejects(lambda: form.write(construct(values)), what)
                continue
            data = b''.join(element.encode(v) for v in values)
            want = {'farr': b'', 'varr': struct.pack(fmt, length), 'sarr': struct.pack(fmt, len(data))}[kind] + data
            ctx.eq(form.write(construct(values)), want, "written " + what)
            check_read(ctx, form, want, values, what)
            form.sizes(ctx, construct(values), len(want), what)
            ctx.state(case, pattern)
            ctx.outcome('empty' if not values else 'content')
            ctx.step(3)
            for cut in range(len(want)):
                form.read_fails(ctx, want[:cut], "%s read from %d of %d bytes" % (what, cut, len(want)))
            if kind == 'sarr' and data:
                # sizes that end inside an element
                ends = set([0])
                for v in values:
                    ends.add(max(ends) + len(element.encode(v)))
                for total in range(len(data)):
                    if total in ends:
                        k = sorted(ends).index(total)
                        part = form.marshal.create_from_string(struct.pack(fmt, total) + data)
                        ctx.true(same(part, values[:k]), "%s cut at the end of element %d: %s" % (what, k, show(part)))
                    else:
                        form.read_fails(ctx, struct.pack(fmt, total) + data, "%s with a total of %d" % (what, total))
    if lo < 0 and kind == 'varr':
        for k in (-1, lo):
            form.read_fails(ctx, struct.pack(fmt, k) + b'\0' * 20, "%s with %d elements" % (case, k))
    ctx.trace()


def check_read(ctx, form, data, values, what):
    a = form.marshal.create_from_string(data)
    ctx.true(same(a, values), "%s: read %s" % (what, show(a)))
    stream = io.BytesIO(b'\x01' + data + b'\x02\x03\x04')
    b = form.cls.create_from_stream(stream)
    ctx.eq((b.before, b.after, stream.tell()), (1, 2, len(data) + 2), "fields next to " + what)
    ctx.true(same(b.v, values), "%s: read %s in a struct" % (what, show(b.v)))




def run_limits(case, ctx):
    kind, prefix, expr, count = case
    element = parse(expr)
    form = array_form(kind, 0, element, prefix)
    m, fmt, lo, hi = PREFIX[prefix]
    values = pick(element, range(count))
    data = b''.join(element.encode(v) for v in values)
    n = count if kind == 'varr' else len(data)
    what = "%s" % (case,)
    if n > hi:
        ctx.rejects(lambda: form.write(construct(values)), what)
        return
    want = struct.pack(fmt, n) + data
    ctx.eq(form.write(construct(values)), want, "written " + what)
    check_read(ctx, form, want, values, what)
    ctx.outcome('content')
    ctx.state(case)


def gen_limits():
    for expr in ('u8', 'be16', 'vstr'):
        for prefix in ('UBInt8', 'SBInt8'):
            for count in (63, 64, 85, 86, 100, 126, 127, 128, 129, 254, 255, 256, 257, 300):
                for kind in ('varr', 'sarr'):
                    yield [kind, prefix, expr, count]


ELEMENTS = ['u8', 'sle32', 'f64', 'pad4', 'fbuf2', 'vstr', 'map', ['farr', 2, 'u8'], ['varr', 'u8'], ['sarr', 'vstr'],
            ['struct', ['u8', ['bits', [3, 5]]]], ['struct', ['ptr']], ['struct', [['opt', 'be16']]], ['derived', ['u8'], ['vstr']],
            ['sel', ['u8'], ['vstr']], ['fsel', 1, ['u8'], ['vstr']], 'rec', ['struct', [['lazy', ['u8', 'be16']]]]]


def gen_arrays(up_to):
    def gen():
        for expr in ELEMENTS:
            for n in range(up_to + 1):
                yield ['farr', n, 'UBInt8', expr, up_to]
            for prefix in ('UBInt8', 'ULInt16', 'SBInt8'):
                for kind in ('varr', 'sarr'):
                    yield [kind, 0, prefix, expr, up_to]
    return gen


# ---------------------------------------------------------------- defaults

def run_default(case, ctx):
    kind, size, n = case
    content = b'abcdef'[:n]
    fits = n <= size if kind == 'padded' else n == size

    def define():
        if kind == 'padded':
            f = PaddedString('v', size, default=content)
        elif kind == 'buffer':
            f = FixedSizeBuffer('v', size, default=content)
        else:
            f = FixedSizeArray('v', size, UBInt8, default=list(content))
        cls = type(Struct)('S', (Struct,), dict(_fields_=[f], __module__='case'))
        return cls().to_bytes()
    if fits:
        ctx.eq(define(), content.ljust(size, b'\0'), "%s" % (case,))
        ctx.outcome('content')
    else:
        ctx.rejects(define, "%s" % (case,))
    ctx.state(case)


LARGE = {'arrays': (16384, 24)}


def spaces(tier):
    quick = tier == 'quick'
    return [
        Space('padded', gen_padded(range(4) if quick else range(6)), run_padded, 'strings and buffers of a fixed size', ['rejected', 'padded', 'full']),
        Space('prefix', gen_var(['UBInt8', 'ULInt16', 'SBInt8', 'UBInt32'] if quick else sorted(PREFIX)), run_var,
              'strings and buffers with a length prefix', ['rejected', 'empty', 'content']),
        Space('arrays', gen_arrays(3 if quick else 4), run_array, 'fixed, counted and byte-counted arrays, cut anywhere', ['rejected', 'empty', 'content']),
        Space('limits', gen_limits, run_limits, 'counts and sizes around the limits of the prefix', ['rejected', 'content']),
        Space('defaults', lambda: ([k, s, n] for k in ('padded', 'buffer', 'array') for s in range(4) for n in range(6)), run_default,
              'default values that fit or not', ['rejected', 'content']),
    ]
