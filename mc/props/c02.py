"""C02: a bit-aware byte array under edits equals a plain list of bits under the same edits."""
from collections import deque
from mc.core import Space
from mc.bits import to_bits, to_bytes, int_bits, bits_int, view_bits
from infi.instruct.buffer.io_buffer import BitView, BitAwareByteArray

ID = 'C02'
RULE = ('single: every edit at bit granularity from every window; history: breadth-first search over edit sequences, '
        'states are (hidden prefix, bits, object), deduplicated; each state is compared with a list of bits')
ASSUMPTIONS = ['the bits of the underlying byte array after the end of the window are not specified',
               'assigning the int 0 to an empty range may be an error',
               'inherited list operations are byte-wise, so they are compared on windows of whole bytes (append, extend '
               'and += on all)']

SRC = bytes((0xA5, 0x3C, 0xF1, 0x9E, 0x5B, 0xC6))
VAL = bytes((0xB7, 0x2D, 0x4B))


TIGHT = [False]


def both(run):
    """With bytes after the window, and with a bytearray that ends with the window."""
    def runs(case, ctx):
        for TIGHT[0] in (False, True):
            run(case, ctx)
    return runs


def array(s, n, src=SRC):
    """An array whose window starts at bit s of its bytearray, and the bytearray."""
    data = bytearray(src[:(s + n + 7) // 8] if TIGHT[0] else src)
    return BitAwareByteArray(data, s / 8., (s + n) / 8.), data


def check(ctx, arr, bits, data, s, what):
    ctx.eq(view_bits(ctx, arr, what), bits, what)
    ctx.eq(to_bits(bytes(data))[:s], to_bits(SRC)[:s], what + ": hidden bits before the window")


def value(kind, n):
    """-> (object to assign, its bits).  n is in bits."""
    bits = to_bits(VAL)[2:2 + n]
    if kind == 'view':
        return BitView(VAL, 2 / 8., (2 + n) / 8.), bits
    if kind == 'array':
        return BitAwareByteArray(bytearray(VAL), 2 / 8., (2 + n) / 8.), bits
    bits = to_bits(VAL)[:n]
    data = to_bytes(bits)
    if kind == 'bytes':
        return data, bits
    if kind == 'bytearray':
        return bytearray(data), bits
    if kind == 'list':
        return list(bytearray(data)), bits
    if kind == 'iter':
        return iter(bytearray(data)), bits
    if kind == 'int':
        return bits_int(bits), bits
    raise ValueError(kind)


VALUES = ([['view', n] for n in range(0, 20)] + [['array', n] for n in (0, 1, 7, 8, 9, 15)] +
          [[k, n] for k in ('bytes', 'bytearray', 'list', 'iter') for n in (0, 8, 16)])


def assigned(bits, a, b, vbits):
    return bits[:a] + vbits + bits[b:]


def untouched(ctx, obj, vbits, what):
    if isinstance(obj, BitView):
        ctx.eq(view_bits(ctx, obj, what), vbits, what + ": the operand changed")


def run_single(case, ctx):
    """All slice edits of one window."""
    s, n, a = case
    bits = to_bits(SRC)[s:s + n]
    for b in range(a, n + 1):
        for kind, vn in VALUES:
            arr, data = array(s, n)
            obj, vbits = value(kind, vn)
            what = "[%d/8:%d/8] = %s of %d bits, window %d+%d" % (a, b, kind, vn, s, n)
            arr[a / 8.:b / 8.] = obj
            want = assigned(bits, a, b, vbits)
            check(ctx, arr, want, data, s, what)
            untouched(ctx, obj, vbits, what)
            # what's appended after that starts where the bits end
            arr.zfill(arr.length() + 5 / 8.)
            check(ctx, arr, want + [0] * 5, data, s, what + ", zfill")
            ctx.step()
            if a == b:
                arr, data = array(s, n)
                obj, vbits = value(kind, vn)
                arr.insert(a / 8., obj)
                check(ctx, arr, want, data, s, 'insert ' + what)
                untouched(ctx, obj, vbits, what)
        arr, data = array(s, n)
        del arr[a / 8.:b / 8.]
        want = bits[:a] + bits[b:]
        what = "del [%d/8:%d/8], window %d+%d" % (a, b, s, n)
        check(ctx, arr, want, data, s, what)
        arr.zfill(arr.length() + 11 / 8.)
        check(ctx, arr, want + [0] * 11, data, s, what + ", zfill")
        # the same through omitted and negative bounds
        for lo in ([a / 8.] + ([None] if a == 0 else []) + ([(a - n) / 8.] if a < n else [])):
            for hi in ([b / 8.] + ([None, n / 8. + 2] if b == n else []) + ([(b - n) / 8.] if b < n else [])):
                arr, data = array(s, n)
                arr[lo:hi] = BitView(VAL, 0, 11 / 8.)
                check(ctx, arr, assigned(bits, a, b, to_bits(VAL)[:11]), data, s, "[%r:%r] = 11 bits" % (lo, hi))
                arr, data = array(s, n)
                del arr[lo:hi]
                check(ctx, arr, want, data, s, "del [%r:%r]" % (lo, hi))
                ctx.step()
        ctx.state(s, n, a, b)
    if a < n:
        e = min(a + 8, n)
        for key in (a / 8., (a - n) / 8.):
            arr, data = array(s, n)
            del arr[key]
            check(ctx, arr, bits[:a] + bits[e:], data, s, "del [%r]" % key)
            for kind, vn in VALUES[::3]:
                arr, data = array(s, n)
                obj, vbits = value(kind, vn)
                arr[key] = obj
                check(ctx, arr, assigned(bits, a, e, vbits), data, s, "[%r] = %s of %d bits" % (key, kind, vn))
    else:
        def set_past_end():
            arr[n / 8.] = 1
        arr, data = array(s, n)
        ctx.rejects(set_past_end, "assignment to an index past the end")
        check(ctx, arr, bits, data, s, "after rejected assignment")
    ctx.trace()


INTS = [0, 1, 2, 3, 5, 127, 128, 255, 256, 257, 0x1B7, 0xFFF, 0x1000, 0xFFFF, 0x10000, 0x2DB7, 0x4B2DB7, 0xFFFFFF, 1 << 24]
INTS = sorted(set(INTS + [1 << k for k in range(26)] + [(1 << k) - 1 for k in range(26)]))


def run_ints(case, ctx):
    """Ints assigned to every range: stored if they fit, rejected otherwise."""
    s, n, a = case
    bits = to_bits(SRC)[s:s + n]
    for b in range(a, n + 1):
        width = b - a
        ints = INTS if width > 5 else sorted(set(INTS) | set(range(0, 70)))
        for v in ints + [-1, -2, -128, -256]:
            what = "[%d/8:%d/8] = %d, window %d+%d" % (a, b, v, s, n)
            arr, data = array(s, n)

            def assign():
                arr[a / 8.:b / 8.] = v
            if 0 <= v < (1 << width) and width:
                assign()
                check(ctx, arr, assigned(bits, a, b, int_bits(v, width)), data, s, what)
                ctx.outcome('stored')
            elif v == 0 and width == 0:
                try:
                    assign()
                except Exception:
                    pass
                check(ctx, arr, bits, data, s, what)
            else:
                ctx.rejects(assign, what)
                check(ctx, arr, bits, data, s, what + ' (rejected)')
            ctx.step()
        if b - a == min(8, n - a) and a < n:
            for v in list(range(-1, 300, 7)) + [255, 256]:
                arr, data = array(s, n)

                def assign():
                    arr[a / 8.] = v
                if 0 <= v < (1 << width):
                    assign()
                    check(ctx, arr, assigned(bits, a, b, int_bits(v, width)), data, s, "[%d/8] = %d" % (a, v))
                else:
                    ctx.rejects(assign, "[%d/8] = %d" % (a, v))
                    check(ctx, arr, bits, data, s, "[%d/8] = %d (rejected)" % (a, v))
        ctx.state('int', s, n, a, b)
    # an int that's inserted is a byte
    for v in (0, 1, 200, 255):
        arr, data = array(s, n)
        arr.insert(a / 8., v)
        check(ctx, arr, assigned(bits, a, a, int_bits(v, 8)), data, s, "insert(%d/8, %d)" % (a, v))
    for bad in ('x', None, 1.5, [256], [-1], [1, 300], object()):
        for op in ('set', 'insert'):
            arr, data = array(s, n)

            def assign():
                if op == 'set':
                    arr[a / 8.:] = bad
                else:
                    arr.insert(a / 8., bad)
            ctx.rejects(assign, "%s %r at %d/8" % (op, bad, a))
            check(ctx, arr, bits, data, s, "%s %r (rejected)" % (op, bad))
    ctx.trace()


def run_join(case, ctx):
    """Concatenation, extension and zero-filling of all pairs of windows; self-operands."""
    s, n = case
    bits = to_bits(SRC)[s:s + n]
    for vs in (0, 1, 3, 7):
        for vn in range(0, 18):
            vbits = to_bits(VAL)[vs:vs + vn]
            for cls in (BitView, BitAwareByteArray):
                def operand():
                    return cls(bytearray(VAL), vs / 8., (vs + vn) / 8.)
                what = "%s of %d bits at %d and window %d+%d" % (cls.__name__, vn, vs, s, n)
                arr, data = array(s, n)
                obj = operand()
                got = arr + obj
                ctx.eq(view_bits(ctx, got, what), bits + vbits, "a + b: " + what)
                check(ctx, arr, bits, data, s, "a + b: left operand: " + what)
                ctx.eq(view_bits(ctx, obj, what), vbits, "a + b: right operand: " + what)
                got.zfill(got.length() + 1)     # the sum is independent
                got[0:1] = b''
                check(ctx, arr, bits, data, s, "a + b, edited: left operand: " + what)
                ctx.eq(view_bits(ctx, obj, what), vbits, "a + b, edited: right operand: " + what)
                got = obj + arr
                ctx.eq(view_bits(ctx, got, what), vbits + bits, "b + a: " + what)
                check(ctx, arr, bits, data, s, "b + a: right operand: " + what)
                ctx.eq(view_bits(ctx, obj, what), vbits, "b + a: left operand: " + what)
                if vbits + bits:
                    got[0:0.125] = 1 - (vbits + bits)[0]
                    check(ctx, arr, bits, data, s, "b + a, edited: right operand: " + what)
                    ctx.eq(view_bits(ctx, obj, what), vbits, "b + a, edited: left operand: " + what)
                arr, data = array(s, n)
                arr.extend(obj)
                check(ctx, arr, bits + vbits, data, s, "extend: " + what)
                arr, data = array(s, n)
                arr += obj
                check(ctx, arr, bits + vbits, data, s, "+=: " + what)
                arr += obj
                check(ctx, arr, bits + vbits * 2, data, s, "+= twice: " + what)
                ctx.eq(view_bits(ctx, obj, what), vbits, "+=: operand: " + what)
                ctx.step(5)
    for length in range(0, n + 20):
        arr, data = array(s, n)
        arr.zfill(length / 8.)
        check(ctx, arr, bits + [0] * max(0, length - n), data, s, "zfill(%d/8)" % length)
    for other in (b'', b'\xb7', [1, 2, 255], bytearray(b'\x80\x01')):
        extra = to_bits(bytearray(other))
        for name in ('extend', '+=', 'append'):
            arr, data = array(s, n)
            if name == 'extend':
                arr.extend(other)
            elif name == '+=':
                arr += other
            else:
                for item in other:
                    arr.append(item if isinstance(item, int) else ord(item))
            check(ctx, arr, bits + extra, data, s, "%s %r" % (name, other))
    ctx.rejects(lambda: array(s, n)[0] + [1], "adding a list")
    # the array itself as its operand
    arr, data = array(s, n)
    arr.extend(arr)
    check(ctx, arr, bits * 2, data, s, "x.extend(x)")
    arr, data = array(s, n)
    arr += arr
    check(ctx, arr, bits * 2, data, s, "x += x")
    for a in range(0, n + 1):
        for b in (a, min(a + 3, n), n):
            arr, data = array(s, n)
            arr[a / 8.:b / 8.] = arr
            check(ctx, arr, assigned(bits, a, b, bits), data, s, "x[%d/8:%d/8] = x" % (a, b))
            arr, data = array(s, n)
            arr[a / 8.:b / 8.] = arr[0:b / 8.]
            check(ctx, arr, assigned(bits, a, b, bits[:b]), data, s, "x[%d/8:%d/8] = x[:%d/8]" % (a, b, b))
        arr, data = array(s, n)
        arr.insert(a / 8., arr)
        check(ctx, arr, assigned(bits, a, a, bits), data, s, "x.insert(%d/8, x)" % a)
    ctx.state(s, n)
    ctx.trace()


def run_bytes_ops(case, ctx):
    """The inherited list operations on whole bytes, compared with bytearray; all sequences of two."""
    s, n, first = case
    ops = list_ops(n)
    for second in range(len(ops)):
        arr, data = array(s, n * 8)
        ref = bytearray(to_bytes(to_bits(SRC)[s:s + n * 8]))
        for k in (first, second):
            name, f = ops[k]
            results = []
            for obj in (ref, arr):
                try:
                    r = f(obj)
                    results.append(('ok', r if isinstance(r, int) else None))
                except (IndexError, ValueError) as e:
                    results.append(('error', None))
            what = "%s on %d bytes at bit %d" % (name, n, s)
            ctx.eq(results[1], results[0], what)
            check(ctx, arr, to_bits(ref), data, s, what)
            ctx.outcome(results[0][0])
            ctx.state(s, bytes(ref))
            ctx.step()
    ctx.trace()


def list_ops(n):
    def setitem(o, k, v):
        o[k] = v

    def delitem(o, k):
        del o[k]
    return ([('append', lambda o: o.append(7)), ('reverse', lambda o: o.reverse()), ('clear', lambda o: o.clear()),
             ('pop', lambda o: o.pop()), ('pop0', lambda o: o.pop(0)), ('pop1', lambda o: o.pop(1)),
             ('remove', lambda o: o.remove(0x3C)), ('remove9', lambda o: o.remove(9)),
             ('extend', lambda o: o.extend([9, 10])), ('insert0', lambda o: o.insert(0, 9)),
             ('insert1', lambda o: o.insert(1, 8)), ('insert9', lambda o: o.insert(9, 8)),
             ('insert-1', lambda o: o.insert(-1, 8)), ('index', lambda o: o.index(0x3C)),
             ('set0', lambda o: setitem(o, 0, 77)), ('set-1', lambda o: setitem(o, slice(-1, None), b'ab') if len(o) else 0),
             ('setslice', lambda o: setitem(o, slice(0, 1), b'xyz')), ('setslice2', lambda o: setitem(o, slice(1, 9), b'q')),
             ('del0', lambda o: delitem(o, 0)), ('delslice', lambda o: delitem(o, slice(0, 2))),
             ('delslice2', lambda o: delitem(o, slice(1, None)))])


# ------------------------------------------------------------------ histories

def history_ops(cuts, lens):
    """Edits at these bit positions (those that exist) with values of these lengths."""
    ops = []
    for a in cuts:
        for b in cuts:
            if b >= a:
                for vn in lens:
                    ops.append(['set', a, b, vn])
                ops.append(['del', a, b])
        for vn in lens:
            ops.append(['ins', a, vn])
    for vn in lens:
        ops.append(['ext', vn])
        ops.append(['radd', vn])
    ops.append(['zfill', 3])
    ops.append(['zfill', 8])
    ops.append(['int', 0, 5])
    ops.append(['int', 6, 11])
    return ops


def apply(op, arr, bits):
    """-> (array, bits) after op, or None if the op doesn't apply to this length."""
    n = len(bits)
    name = op[0]
    if name in ('set', 'del', 'ins', 'int') and max(op[1:3] if name != 'ins' else op[1:2]) > n:
        return None
    if name == 'set':
        _, a, b, vn = op
        obj, vbits = value('view', vn)
        arr[a / 8.:b / 8.] = obj
        return arr, assigned(bits, a, b, vbits)
    if name == 'del':
        _, a, b = op
        del arr[a / 8.:b / 8.]
        return arr, bits[:a] + bits[b:]
    if name == 'ins':
        _, a, vn = op
        obj, vbits = value('view', vn)
        arr.insert(a / 8., obj)
        return arr, assigned(bits, a, a, vbits)
    if name == 'ext':
        obj, vbits = value('view', op[1])
        arr.extend(obj)
        return arr, bits + vbits
    if name == 'radd':
        obj, vbits = value('view', op[1])
        return obj + arr, vbits + bits
    if name == 'zfill':
        arr.zfill(arr.length() + op[1] / 8.)
        return arr, bits + [0] * op[1]
    if name == 'int':
        _, a, b = op
        v = (1 << (b - a)) - 2
        arr[a / 8.:b / 8.] = v
        return arr, assigned(bits, a, b, int_bits(v, b - a))
    raise ValueError(name)


def run_history(case, ctx):
    """All edit sequences to a depth that start with the given edit, breadth first."""
    s, n, ops, depth, limit, first = case
    ops = history_ops(*ops)
    seen = set()

    def build(path):
        arr, data = array(s, n)
        bits = to_bits(SRC)[s:s + n]
        for k in path:
            r = apply(ops[k], arr, bits)
            if r is None:
                return None
            arr, bits = r
        return arr, bits, data

    todo = deque([[first]])
    while todo:
        path = todo.popleft()
        r = build(path)
        if r is None or len(r[1]) > limit:
            continue
        arr, bits, data = r
        what = "window %d+%d, %s" % (s, n, [ops[k] for k in path])
        ctx.eq(view_bits(ctx, arr, what), bits, what)
        if not any(ops[k][0] == 'radd' for k in path):
            ctx.eq(to_bits(bytes(data))[:s], to_bits(SRC)[:s], what + ": hidden bits")
        ctx.step()
        key = (tuple(bits), repr(arr))
        if key in seen:
            continue
        seen.add(key)
        ctx.state(s, n, key)
        if len(path) < depth:
            todo.extend(path + [k] for k in range(len(ops)))
    ctx.trace()


def gen_history(starts, sizes, ops, depth, limit):
    def gen():
        for s in starts:
            for n in sizes:
                for k in range(len(history_ops(*ops))):
                    yield [s, n, ops, depth, limit, k]
    return gen


def gen_windows(starts, top, what):
    def gen():
        for s in starts:
            for n in range(top + 1):
                if what == 'a':
                    for a in range(n + 1):
                        yield [s, n, a]
                else:
                    yield [s, n]
    return gen


LARGE = {'edits': (1024, 12)}


def spaces(tier):
    quick = tier == 'quick'
    return [
        Space('single', gen_windows([0, 1, 3, 8, 13] if quick else range(17), 18 if quick else 26, 'a'), both(run_single),
              'every slice and index edit from every window', ['rejected']),
        Space('ints', gen_windows([0, 2, 5, 9] if quick else range(10), 17 if quick else 26, 'a'), both(run_ints),
              'ints and bad values assigned to every range', ['rejected', 'stored']),
        Space('join', gen_windows([0, 1, 4, 11] if quick else range(12), 17 if quick else 26, 'n'), both(run_join),
              'concatenation, extension, zero-filling, self-operands', ['rejected']),
        Space('list-ops', lambda: ([s, n, k] for s in ((0, 3, 8) if quick else range(9)) for n in range(4)
                                   for k in range(len(list_ops(0)))), both(run_bytes_ops),
              'all pairs of inherited list operations on whole bytes', ['ok', 'error']),
        Space('history', gen_history([0, 5], [0, 11], [[0, 3, 8, 11], [0, 1, 9]], 2 if quick else 3, 40), both(run_history),
              'all edit histories to depth %d, boundary positions' % (2 if quick else 3)),
        Space('history-deep', gen_history([3], [10], [[0, 5, 8], [3, 8]] if quick else [[0, 5, 8], [0, 3, 8, 12]],
                                          3 if quick else 4, 32), both(run_history),
              'all edit histories to depth %d, few positions' % (3 if quick else 4)),
    ]
