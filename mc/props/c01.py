"""C01: every way of reading a bit view gives exactly the bits of its window."""
from mc.core import Space
from mc.bits import to_bits, to_bytes, patterns, view_bits
from infi.instruct.buffer.io_buffer import BitView, BitAwareByteArray

ID = 'C01'
RULE = ('a case is one (source kind, content, window); inside it every slice and index at bit granularity, negative, '
        'omitted and past the ends, is read in every way; states are the distinct (window, slice, bits) views')
ASSUMPTIONS = ['bit positions in units of 1/8, as documented', 'step other than 1 is not supported by the library',
               'a slice whose end is before its start may be empty or an error',
               'negative indexes before the start are not specified']


def make(kind, data, s, e):
    """-> (view, source, function that returns the source content)"""
    if kind == 'bytes':
        return BitView(data, s / 8., e / 8.), data
    if kind == 'bytearray':
        src = bytearray(data)
        return BitView(src, s / 8., e / 8.), src
    if kind == 'array':
        src = bytearray(data)
        return BitAwareByteArray(src, s / 8., e / 8.), src
    if kind == 'memoryview':
        src = memoryview(bytes(data))
        return BitView(src, s / 8., e / 8.), src
    # a window of a window: three bits are hidden before and five after it
    bits = [1, 0, 1] + to_bits(data) + [1, 1, 0, 1, 1]
    src = BitView(to_bytes(bits), 3 / 8., (len(bits) - 5) / 8.)
    return src[s / 8.:e / 8.], src


def content(source):
    return bytes(source.to_bytes()) if isinstance(source, BitView) else bytes(source)


def pos(x):
    return None if x is None else x / 8.


def check_index(ctx, view, bits, i):
    n = len(bits)
    if i >= n:
        ctx.rejects(lambda: view[i / 8.], "index %d/8 of %d bits" % (i, n))
        return
    start = i if i >= 0 else n + i
    if start < 0:
        return
    want = sum(bit << k for k, bit in enumerate(bits[start:start + 8]))
    ctx.eq(view[i / 8.], want, "index %d/8 of bits %s" % (i, bits))
    if i % 8 == 0:
        ctx.eq(view[i // 8], want, "index %d of bits %s" % (i // 8, bits))
    ctx.outcome('index')


def check_slice(ctx, view, bits, a, b, deep=True):
    """-> the slice, or None if there's none"""
    n = len(bits)
    start, stop, _ = slice(a, b).indices(n)
    what = "slice [%s/8:%s/8] of bits %s" % (a, b, bits)
    if start > stop:
        try:
            got = view[pos(a):pos(b)]
        except Exception:
            return None
        ctx.eq(view_bits(ctx, got, what), [], what)
        return None
    got = view[pos(a):pos(b)]
    want = bits[start:stop]
    if deep:
        ctx.eq(view_bits(ctx, got, what), want, what)
    else:
        ctx.eq(bytes(got.to_bytes()), to_bytes(want), what)
    ctx.step()
    ctx.outcome('slice')
    return got


def run_window(case, ctx):
    kind, data, s, e = case
    data = bytes(data)
    view, source = make(kind, data, s, e)
    before = content(source)
    bits = to_bits(data)[s:e]
    n = len(bits)
    ctx.eq(view_bits(ctx, view, "window [%d:%d]" % (s, e)), bits, "window [%d:%d] of %s" % (s, e, kind))
    for i in range(-n - 1, n + 10):
        check_index(ctx, view, bits, i)
    points = list(range(-n - 2, n + 3)) + [None, n + 40, -n - 40]
    for a in points:
        for b in points:
            check_slice(ctx, view, bits, a, b)
    ctx.state(kind, data, s, e)
    items = list(bytearray(to_bytes(bits)))
    ctx.eq(list(reversed(view)), items[::-1], "reversed")
    for value in set(items) | {0, 255, 77}:
        ctx.eq(value in view, value in items, "membership of %d in %s" % (value, items))
        ctx.eq(view.count(value), items.count(value), "count")
    ctx.eq(view_bits(ctx, view, "window after reads"), bits, "view changed by reading")
    ctx.eq(content(source), before, "source changed by reading")
    ctx.trace()


def gen_window(nbytes, kinds, pats):
    def gen():
        for s in range(nbytes * 8 + 1):
            for e in range(s, nbytes * 8 + 1):
                for kind in kinds:
                    for data in list(patterns(nbytes))[:pats]:
                        yield [kind, list(bytearray(data)), s, e]
    return gen


def run_values(case, ctx):
    """Every content of one and a half bytes, every window: whole reads only."""
    value, s = case
    data = bytes((value & 255, value >> 8))
    all_bits = to_bits(data)
    for e in range(s, 13):
        bits = all_bits[s:e]
        for kind in ('bytearray', 'array'):
            view, _ = make(kind, data, s, e)
            ctx.eq(view_bits(ctx, view, "window"), bits, "window [%d:%d] of %r" % (s, e, data))
            ctx.step()
        if e == s:
            continue
        view, _ = make('array', data, s, e)
        for i in range(e - s):
            check_index(ctx, view, bits, i)
    ctx.state(value, s)
    ctx.trace()


def run_walk(case, ctx):
    """Walking-bit contents: every window read whole and byte by byte."""
    kind, data, s = case
    data = bytes(data)
    all_bits = to_bits(data)
    for e in range(s, len(all_bits) + 1):
        view, source = make(kind, data, s, e)
        bits = all_bits[s:e]
        ctx.eq(view_bits(ctx, view, "window"), bits, "window [%d:%d] of %s %r" % (s, e, kind, data))
        ctx.step()
        ctx.state(kind, data, s, e)
    ctx.trace()


def gen_walk(nbytes, kinds):
    def gen():
        for kind in kinds:
            for data in patterns(nbytes):
                for s in range(nbytes * 8 + 1):
                    yield [kind, list(bytearray(data)), s]
    return gen


def run_nested(case, ctx):
    """A slice of a slice of a slice."""
    kind, s, e, a = case
    data = bytes((0xA5, 0x3C, 0xF1))
    view, source = make(kind, data, s, e)
    bits = to_bits(data)[s:e]
    n = len(bits)
    for b in range(a, n + 1):
        one = check_slice(ctx, view, bits, a, b, False)
        sub = bits[a:b]
        for c in list(range(0, b - a + 1)) + [-1, -3]:
            for d in list(range(max(c, 0), b - a + 1)) + [None, -1, -2]:
                two = check_slice(ctx, one, sub, c, d, False)
                if two is not None and d is None:
                    subsub = sub[c:d]
                    check_slice(ctx, two, subsub, 1, None)
                    check_slice(ctx, two, subsub, 0, -1)
                    if subsub:
                        check_index(ctx, two, subsub, 0)
                    check_index(ctx, two, subsub, len(subsub))
        ctx.state(kind, s, e, a, b)
    ctx.eq(view_bits(ctx, view, "view after slicing"), bits, "view changed by slicing")
    ctx.trace()


def gen_nested(top, kinds):
    def gen():
        for kind in kinds:
            for s in range(top + 1):
                for e in range(s, min(top, s + 17) + 1):
                    for a in range(0, e - s + 1):
                        yield [kind, s, e, a]
    return gen


def run_invalid(case, ctx):
    n, s, e = case
    data = bytearray(range(1, n + 1))
    if 0 <= s <= e <= n * 8:
        ctx.eq(view_bits(ctx, BitView(data, s / 8., e / 8.), "window"), to_bits(data)[s:e], "window")
        ctx.outcome('valid')
    else:
        ctx.rejects(lambda: BitView(data, s / 8., e / 8.), "window [%d:%d] of %d bytes" % (s, e, n))
    view = BitView(data)
    ctx.eq(view_bits(ctx, view, "whole"), to_bits(data), "default window")
    ctx.rejects(lambda: view[::2], "step 2")
    ctx.rejects(lambda: view['1'], "index of a wrong type")
    ctx.state(n, s, e)
    ctx.trace()


def gen_invalid(top):
    def gen():
        for n in range(top + 1):
            for s in range(-3, n * 8 + 3):
                for e in range(-3, n * 8 + 5):
                    yield [n, s, e]
    return gen


LARGE = {'window': (4096, 12)}


def spaces(tier):
    kinds = ['bytes', 'array', 'nested']
    if tier == 'quick':
        return [
            Space('values', lambda: ([v, s] for v in range(4096) for s in range(13)), run_values,
                  'all 4096 contents of 12 bits x all windows in them, read whole and by index'),
            Space('windows', gen_window(2, kinds + ['bytearray', 'memoryview'], 4), run_window,
                  'all windows of 2 bytes x 4 contents x 5 source kinds: all slices and indexes', ['index', 'slice', 'rejected']),
            Space('windows3', gen_window(3, ['array', 'nested'], 3), run_window,
                  'all windows of 3 bytes x 3 contents x 2 source kinds: all slices and indexes', ['index', 'slice', 'rejected']),
            Space('walk', gen_walk(4, kinds), run_walk, 'all windows of 4 bytes x walking-bit contents'),
            Space('nested', gen_nested(18, ['array', 'bytes']), run_nested, 'slices of slices of all windows of 18 bits'),
            Space('invalid', gen_invalid(2), run_invalid, 'all windows around and outside 0-2 bytes', ['valid', 'rejected']),
        ]
    return [
        Space('values', lambda: ([v, s] for v in range(1 << 13) for s in range(13)), run_values,
              'all contents of 13 bits x all windows in them'),
        Space('windows', gen_window(2, kinds + ['bytearray', 'memoryview'], 20), run_window,
              'all windows of 2 bytes x walking-bit contents x 5 source kinds: all slices and indexes', ['index', 'slice', 'rejected']),
        Space('windows4', gen_window(4, ['array', 'nested', 'bytes'], 4), run_window,
              'all windows of 4 bytes x 4 contents x 3 source kinds: all slices and indexes', ['index', 'slice', 'rejected']),
        Space('walk', gen_walk(6, kinds), run_walk, 'all windows of 6 bytes x walking-bit contents'),
        Space('nested', gen_nested(24, ['array', 'bytes', 'nested']), run_nested, 'slices of slices of all windows of 24 bits'),
        Space('invalid', gen_invalid(4), run_invalid, 'all windows around and outside 0-4 bytes', ['valid', 'rejected']),
    ]
