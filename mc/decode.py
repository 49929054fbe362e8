"""Reference decoders over bytes that are made up as they are read.

A decoder asks a Source for bytes and names the alternatives for them; explore() runs it on every sequence of choices in
which at most a given number differ from the first alternative.  So every string of bytes that the decoder can tell apart
that way is reached, up to the bound, with what it has to give: values and the bytes they serialize to, or a rejection.
"""
import json
import math
import struct
from mc import family, sfamily
from infi.instruct.buffer import (bytes_ref, uint_field, int_field, be_uint_field, float_field, str_field, list_field, buffer_field,
                                  str_type_factory)


class Reject(Exception):
    """These bytes are not an encoding."""


class Unspecified(Exception):
    """It's not specified whether these bytes are."""


# Counts and lengths for which data is made up
SOME = list(range(18)) + [31, 32, 33, 63, 64, 65, 126, 127, 128, 129, 200, 254, 255]


class Source(object):
    def __init__(self, choices, sweep=False, most=1200):
        self.choices, self.sweep = choices, sweep
        self.taken = []          # number of alternatives at each choice
        self.data = b''
        self.at = 0
        self.cuts = [0]
        self.frozen = 0
        self.most = most

    def choose(self, alternatives):
        if self.frozen or len(alternatives) == 1:
            return alternatives[0]
        k = len(self.taken)
        self.taken.append(len(alternatives))
        return alternatives[self.choices.get(k, 0)]

    def peek(self, n, alternatives):
        have = len(self.data) - self.at
        if have < n:
            seen = self.data[self.at:]
            fit = [a[have:] for a in alternatives if a[:have] == seen] or [a[have:] for a in alternatives]
            unique = []
            for a in fit:
                if a not in unique:
                    unique.append(a)
            if self.sweep and n - have == 1:
                every = SOME if alternatives[0] == b'\2' else range(256)
                unique += [x for x in (bytes(bytearray([b])) for b in every) if x not in unique]
            self.data += self.choose(unique)
            self.cuts.append(len(self.data))
            if len(self.data) > self.most:
                raise Unspecified("too long")
        return self.data[self.at:self.at + n]

    def read(self, n, alternatives):
        out = self.peek(n, alternatives)
        self.at += n
        assert len(out) == n
        return out

    def byte(self, alternatives):
        return bytearray(self.read(1, [bytes(bytearray([a])) for a in alternatives]))[0]


def explore(decode, deviations, sweep=False, part=(0, 1), most=1200):
    """-> (source, result of the decoder or the exception) for every sequence of choices within the bound

    part: (k, n) for one of n parts of them, by the first choices"""
    stack = [({}, 0, deviations)]
    count = 0
    while stack:
        choices, first, left = stack.pop()
        if len(choices) == 1:
            count += 1
            if count % part[1] != part[0]:
                continue
        source = Source(choices, sweep, most)
        try:
            result = decode(source)
        except (Reject, Unspecified) as e:
            result = e
        if choices or part[0] == 0:
            yield source, result
        if left:
            for k in range(first, len(source.taken)):
                for a in range(1, source.taken[k]):
                    stack.append((dict(list(choices.items()) + [(k, a)]), k + 1, left - 1))


# ---------------------------------------------------------------- structs

class Parsed(object):
    """What a struct has to be: attributes, and those that can't be had because a lazy group is broken."""

    def __init__(self, cls, attrs, broken):
        self.cls, self.attrs, self.broken = cls, attrs, broken

    def __repr__(self):
        return "%s(%r)%s" % (self.cls.__name__, self.attrs, " without %s" % sorted(self.broken) if self.broken else '')

    def whole(self):
        return not self.broken and all(whole(v) for v in self.attrs.values())


def whole(v):
    if isinstance(v, Parsed):
        return v.whole()
    if isinstance(v, list):
        return all(whole(x) for x in v)
    return True


def same(got, v):
    if isinstance(v, Parsed):
        if type(got) != v.cls or not all(same(getattr(got, k), x) for k, x in v.attrs.items()):
            return False
        for k in v.broken:
            for again in range(2):
                try:
                    getattr(got, k)
                except Exception:
                    continue
                return False
        return True
    if isinstance(v, list):
        return isinstance(got, list) and len(got) == len(v) and all(same(g, x) for g, x in zip(got, v))
    if isinstance(v, float):
        return type(got) == float and (math.isnan(got) if math.isnan(v) else repr(got) == repr(v))
    return type(got) == type(v) and got == v


def spread(w, seed=0x35):
    return bytes(bytearray((seed + 0x4B * k) & 255 for k in range(w)))


def number(t, src):
    w = struct.calcsize(t.fmt)
    alts = [spread(w), bytes(w), b'\xff' * w, b'\x80' + bytes(w - 1), bytes(w - 1) + b'\x80', b'\x7f' + b'\xff' * (w - 1), b'\xff' * (w - 1) + b'\x7f']
    if t.fmt[-1] in 'fd':
        for x in (float('inf'), float('-inf'), 5e-324 if w == 8 else 1e-45, 1.0):
            alts.append(struct.pack(t.fmt, x))
    elif w == 1:
        alts += [b'\x01', b'\xa7', b'\x12']
    raw = src.read(w, alts)
    v, = struct.unpack(t.fmt, raw)
    return v, struct.pack(t.fmt, v)


def texts(n, padding):
    """Contents of n bytes: with padding and without, and padding in every kind of place."""
    if n == 0:
        return [b'']
    p, o = padding[:1] or b'\0', b'\0' if padding[:1] != b'\0' else b' '
    body = bytes(bytearray(0x61 + k % 26 for k in range(n)))
    out = [body, p * n, body[:-1] + p, p + body[1:], o * n, b'\xff' * n, body[:-1] + o, o + body[1:]]
    if n > 2:
        out += [p + body[1:-1] + p, body[:1] + p * (n - 2) + body[-1:], p * (n - 1) + b'z', b'z' + p * (n - 1)]
    return out


def padded(t, src):
    raw = src.read(t.n, texts(t.n, t.padding))
    if t.direction == sfamily.PADDING_DIRECTION_LEFT:
        return (raw.lstrip(t.padding),) * 2 if t.n == 0 else (raw.lstrip(t.padding), raw)
    if t.direction == sfamily.PADDING_DIRECTION_RIGHT:
        return raw.rstrip(t.padding), raw
    v = raw.strip(t.padding)
    return v, raw if len(v) == t.n else None


def fixedbuf(t, src):
    raw = src.read(2, texts(2, b'\0'))
    return raw, raw


LENGTHS = [2, 0, 1, 3, 5, 127, 128, 255]


def varstr(t, src):
    n = src.byte(LENGTHS)
    v = src.read(n, texts(n, b'\0')).rstrip(b'\0')
    return v, struct.pack('B', len(v)) + v


def varbuf(t, src):
    n, = struct.unpack('<H', src.read(2, [b'\2\0', b'\0\0', b'\1\0', b'\0\1', b'\xff\0', b'\0\x80', b'\xff\xff']))
    v = src.read(n, texts(n, b'\0'))
    return v, struct.pack('<H', n) + v


def mapped(t, src):
    n = src.byte(sorted(t.MAP.values()) + [2, 127, 128, 254])
    for k, v in t.MAP.items():
        if v == n:
            return k, struct.pack('B', n)
    raise Reject("%d is not mapped" % n)


def elements(t, src, n):
    values, canon = [], b''
    for k in range(n):
        far = 2 <= k < n - 1
        src.frozen += far
        v, c = decode(t.element, src)
        src.frozen -= far
        values.append(v)
        canon = None if c is None or canon is None else canon + c
    return values, canon


def array(t, src):
    if t.kind == 'farr':
        return elements(t, src, t.n)
    if t.kind == 'varr':
        n = src.byte(LENGTHS)
        values, canon = elements(t, src, n)
        return values, None if canon is None else struct.pack('B', n) + canon
    total = src.byte([6, 0, 1, 2, 3, 4, 5, 7, 8, 9, 12, 16, 24, 128, 255])
    start = src.at
    values, canon = [], b''
    while src.at < start + total:
        far = len(values) >= 2
        src.frozen += far
        before = src.at
        v, c = decode(t.element, src)
        src.frozen -= far
        values.append(v)
        canon = None if c is None or canon is None else canon + c
        if src.at == before:
            raise Reject("no size")
    if src.at != start + total:
        raise Reject("the last element goes beyond the %d bytes" % total)
    return values, None if canon is None else struct.pack('B', len(canon)) + canon


def sized(t, src):
    w = struct.calcsize(t.fmt)
    few = [2, 0, 1, 3, 4, 6]
    if w == 1 and t.fmt != 'b':
        alts = [struct.pack('B', x) for x in (7, 1, 0, 6, 255, 2, 3, 128)]
    else:
        alts = [struct.pack(t.fmt, x) for x in few] + [b'\xff' * w, b'\x80' + bytes(w - 1), bytes(w - 1) + b'\x80', bytes(w - 1) + b'\2'] + \
               [bytes(k) + b'\1' + bytes(w - 1 - k) for k in range(w)]
    raw = src.read(w, alts)
    n, = struct.unpack(t.fmt, raw)
    if t.fmt == 'B':
        if n not in t.MAP.values():
            raise Reject("%d is not mapped" % n)
        n = next(k for k, v in t.MAP.items() if v == n)
    if n < 0:
        raise Reject("negative size")
    if n > 600:
        if t.kind == 'varr' and n > 1 << 24:
            raise Unspecified("room for so many elements may not be there, if it is taken at once")
        raise Reject("more than there is")
    if t.element is None:
        v = src.read(n, texts(n, b'\0'))
        if t.kind == 'str':
            v = v.rstrip(b'\0')
        size, canon = len(v), v
    elif t.kind == 'varr':
        v, canon = elements(t, src, n)
        size = n
    else:
        start, v, canon = src.at, [], b''
        while src.at < start + n:
            far = len(v) >= 2
            src.frozen += far
            x, c = decode(t.element, src)
            src.frozen -= far
            v.append(x)
            canon = None if c is None or canon is None else canon + c
        if src.at != start + n:
            raise Reject("the last element goes beyond the %d bytes" % n)
        size = None if canon is None else len(canon)
    if canon is None:
        return v, None
    try:
        return v, t.size_bytes(size) + canon
    except KeyError:
        raise Unspecified("can't be written")


def bitgroup(t, src):
    n = sum(abs(w) for w in t.widths) // 8
    alts = [spread(n), bytes(n), b'\xff' * n] + [bytes(bytearray(1 << b % 8 if k == b // 8 else 0 for k in range(n))) for b in range(8 * n)]
    raw = src.read(n, alts)
    x = sum(b << 8 * k for k, b in enumerate(bytearray(raw)))
    values, at, kept = [], 0, 0
    for w in t.widths:
        mask = (1 << abs(w)) - 1
        if w > 0:
            values.append(x >> at & mask)
            kept |= mask << at
        at += abs(w)
    return tuple(values), bytes(bytearray((x & kept) >> 8 * k & 255 for k in range(n)))


def positional(t, src):
    alts = [spread(2), b'\0\0', b'\xff\xff'] + [struct.pack('<H', 1 << k) for k in range(16)]
    x, = struct.unpack('<H', src.read(2, alts))
    values, kept = [], 0
    for slices in t.layout:
        v = at = 0
        for a, b in slices:
            v |= (x >> a & (1 << b - a) - 1) << at
            at += b - a
            kept |= (1 << b - a) - 1 << a
        values.append(v)
    return tuple(values), struct.pack('<H', x & kept)


def join(parts):
    return None if any(p is None for p in parts) else b''.join(parts)


def adapted(t, src):
    raw = src.read(3, [spread(3), bytes(3), b'\xff' * 3, b'\1\2\x84'])
    x, b = struct.unpack('>HB', raw)
    return Parsed(sfamily.Fixed3, dict(x=x, y=b & 15, z=b >> 4), ()), raw


# items of structs: -> attributes, broken names, canonical bytes

def optional(t, name, src):
    flag = src.byte([1, 0, 2, 128, 255])
    attrs = {name + '_flag': flag, name: None}
    if not flag:
        return attrs, (), b'\0'
    v, c = decode(t.inner, src)
    attrs[name] = v
    return attrs, (), join([struct.pack('B', flag), c])


def const(t, name, src):
    want = t.inner.encode(t.value)
    n = len(want)
    if t.inner.fixed and not isinstance(t.value, sfamily.Rec):
        raw = src.peek(n, [want, bytes(n), b'\xff' * n] + [bytes(bytearray(b ^ (1 << j if i == k else 0) for i, b in enumerate(bytearray(want))))
                                                             for k in range(n) for j in range(8)])
    else:
        # the right one first
        src.peek(1, [want[:1]] + [bytes(bytearray([b])) for b in (0, 1, 2, 3, 4, 255)])
        if src.data[src.at:src.at + 1] == want[:1]:
            src.peek(n, [want] + [want[:k] + bytes(bytearray([bytearray(want)[k] ^ m])) + want[k + 1:] for k in range(1, n) for m in (1, 0x80)])
    v, c = decode(t.inner, src)
    if isinstance(t.value, sfamily.Rec):
        if c != want:
            raise Reject("not the constant")
    elif v != t.value:
        raise Reject("not the constant")
    return {name: ISA(t.value) if isinstance(t.value, sfamily.Rec) else t.value}, (), want


def ISA(rec):
    return Parsed(rec.cls, dict((k, ISA(v) if isinstance(v, sfamily.Rec) else v) for k, v in rec.expected.items()), ())


def padding(t, name, src):
    src.read(t.n, [t.encode(None), bytes(t.n), b'\xff' * t.n])
    return {}, (), t.encode(None)


def pointer(t, name, src):
    n = src.byte(LENGTHS)
    gap = src.byte([0x77, 0, 255])
    v = src.read(n, texts(n, b'\0'))
    return {name: v, name + '_len': n, name + '_gap': gap}, (), struct.pack('BB', n, gap) + v


def pointers(t, name, src):
    n = src.byte(LENGTHS)
    v = [src.read(n, texts(n, b'\0')) for k in range(2)]
    return {name: v, name + '_len': n}, (), struct.pack('B', n) + b''.join(v)


def fields(t, name, src):
    attrs, broken, canon = {}, set(), []
    for n, i in zip(t.names(name), t.items):
        a, b, c = item(i, n, src)
        attrs.update(a)
        broken |= set(b)
        canon.append(c)
    return attrs, broken, join(canon)


def lazy(t, name, src):
    """What's wrong with the content only matters when it's looked at."""
    combo = t.few()[0]
    start, size = src.at, len(t.encode(combo))
    try:
        return fields(t, name + '_', src)
    except Reject:
        src.read(start + size - src.at, [bytes(max(0, start + size - src.at))])
        return {}, set(t.all_attrs(name + '_', combo, 'expect')), None


def structure(t, src):
    attrs, broken, canon = fields(t, 'f', src)
    return Parsed(t.define(), attrs, broken), canon


def keyed(t, src):
    ahead = t.ahead or 1
    firsts = [b'\xa7\2', b'\x12\xfe', b'\xa7\1', b'\xa7\0', b'\x12\xff', b'\0\0', b'\xff\xff', b'\xa6\2']
    raw = src.peek(ahead, [(x + bytes(ahead))[:ahead] for x in firsts])
    key = bytearray(raw)[0]
    if t.ahead is None and not t.default and key not in t.keys:
        raise Reject("no struct for %d" % key)
    start = src.at
    out = structure(t.structs[0 if key == t.keys[0] else 1], src)
    if src.at - start < ahead:
        raise Reject("looked beyond the end")
    return out


def zerokeyed(t, src):
    key = bytearray(src.peek(1, [b'\0', b'\xa7', b'\1', b'\xff']))[0]
    return structure(t.structs[1 if key else 0], src)


def keyedbyfield(t, name, src):
    key = src.byte([1, 2, 0, 3, 129, 255])
    if key not in (1, 2):
        raise Reject("no struct for %d" % key)
    v, c = structure(t.structs[key - 1], src)
    return {name: v, name + '_key': key}, (), join([struct.pack('B', key), c])


TYPES = {'Number': number, 'Padded': padded, 'FixedBuf': fixedbuf, 'VarStr': varstr, 'VarBuf': varbuf, 'Mapped': mapped, 'Array': array,
         'BitGroup': bitgroup, 'Positional': positional, 'Adapted': adapted, 'StructItem': structure, 'Top': structure, 'Keyed': keyed, 'Sized': sized, 'ZeroKeyed': zerokeyed}
ITEMS = {'Optional': optional, 'Const': const, 'Padding': padding, 'Pointer': pointer, 'Pointers': pointers, 'LazyItem': lazy, 'KeyedByField': keyedbyfield}


def decode(t, src):
    """-> value, the bytes it serializes to (None if that's not specified)"""
    return TYPES[type(t).__name__](t, src)


def item(t, name, src):
    kind = type(t).__name__
    if kind in ITEMS:
        return ITEMS[kind](t, name, src)
    v, c = decode(t, src)
    if kind == 'BitGroup':
        return dict(zip(['%s_%d' % (name, k) for k, w in enumerate(t.widths) if w > 0], v)), (), c
    if kind == 'Positional':
        return dict(('%s_%d' % (name, k), x) for k, x in enumerate(v)), (), c
    return {name: v}, (), c


# ---------------------------------------------------------------- records

class OneOf(object):
    def __init__(self, values):
        self.values = values

    def __repr__(self):
        return ' or '.join(map(repr, self.values))


def text(raw, encoding, justify='left', padding=b' ', strip=b'\0'):
    """-> text, canonical content (None if it's not specified which)"""
    from mc.props.c07 import stripped
    options = sorted(stripped(raw, justify, strip, padding))
    try:
        values = [o.decode(encoding) for o in options]
    except UnicodeDecodeError:
        raise Reject("not text")
    if len(values) == 1:
        return values[0], options[0]
    return OneOf(values), None


class Decoder(object):
    """Decodes the items of family.Program (and those below)."""

    def __init__(self, program):
        self.program = program

    def __call__(self, src):
        values, canon = {}, []
        src.needed = 0                    # of these bytes none may be missing
        total = None
        items = self.program.items
        for i in items:
            before = src.at
            a, c = getattr(self, 'item_' + type(i).__name__)(i, src)
            values.update(a)
            canon.append(c)
            if not i.open and getattr(src, 'skipped', None) is None:
                src.needed = src.at
            src.skipped = None
        if canon and items[-1].kind == 'total' and None not in canon:
            n = sum(len(c) for c in canon)
            canon[-1] = struct.pack('>H', n) + canon[-1][2:]
        return values, join(canon)

    def plain(self, i, src, alternatives, value):
        raw = src.read(len(alternatives[0]), alternatives)
        return {i.name: value(raw)}, raw

    def numbers(self, i, src, fmt):
        w = struct.calcsize(fmt)
        alts = [spread(w), bytes(w), b'\xff' * w, b'\x80' + bytes(w - 1), bytes(w - 1) + b'\x80', b'\x7f' + b'\xff' * (w - 1), b'\xff' * (w - 1) + b'\x7f']
        alts += [bytes(k) + b'\1' + bytes(w - 1 - k) for k in range(w)]
        if fmt[-1] in 'fd':
            alts += [struct.pack(fmt, x) for x in (float('inf'), float('-inf'), 1e-45, 1.0)]
        raw = src.read(w, alts)
        v, = struct.unpack(fmt, raw)
        return {i.name: v}, struct.pack(fmt, v)

    def item_U8(self, i, src):
        n = src.byte([0xA7, 0, 1, 127, 128, 255])
        return {i.name: n}, struct.pack('B', n)

    def item_BE16(self, i, src):
        return self.numbers(i, src, '>H')

    def item_S16(self, i, src):
        return self.numbers(i, src, '<h')

    def item_F32(self, i, src):
        return self.numbers(i, src, '<f')

    def item_S32(self, i, src):
        return self.numbers(i, src, '>l')

    def item_F64(self, i, src):
        return self.numbers(i, src, '>d')

    def item_LE24(self, i, src):
        raw = src.read(3, [spread(3), bytes(3), b'\xff' * 3, b'\1\0\0', b'\0\1\0', b'\0\0\1', b'\0\0\x80'])
        return {i.name: struct.unpack('<L', raw + b'\0')[0]}, raw

    def letters(self, n, extra):
        return texts(n, b' ') + [x for x in extra if len(x) == n]

    def item_Str4(self, i, src):
        raw = src.read(4, self.letters(4, [b'\x80abc', b'a\x00 \x00', b'  \x00\x00', b'\0\0  ', b'\n\t\r\x7f']))
        v, c = text(raw, 'ascii')
        return {i.name: v}, None if c is None else c.ljust(4)

    def item_Right(self, i, src):
        raw = src.read(3, self.letters(3, [b'**a', b'*a*', b'***', b'\0*a', b'*\0a', b'\xe9ab', b'\xc3\xa9*']))
        v, c = text(raw, 'utf-8', 'right', b'*')
        return {i.name: v}, None if c is None else c.rjust(3, b'*')

    def item_Raw2(self, i, src):
        raw = src.read(2, texts(2, b'\0'))
        return {i.name: bytearray(raw)}, raw

    def item_Flags(self, i, src):
        n = src.byte([0xA5] + [1 << k for k in range(8)] + [255, 0])
        return {i.name: n >> 3, i.len_name: n & 7}, struct.pack('B', n)

    def item_Split(self, i, src):
        alts = [spread(3), bytes(3), b'\xff' * 3] + [bytes(bytearray(1 << b % 8 if k == b // 8 else 0 for k in range(3))) for b in range(24)]
        raw = src.read(3, alts)
        a, b, c = bytearray(raw)
        return {i.name: (a & 15) << 8 | c, i.len_name: b << 4 | a >> 4}, raw

    def pair(self, src):
        raw = src.read(3, [spread(3), bytes(3), b'\xff' * 3, b'\1\2\x84'])
        x, b = struct.unpack('>HB', raw)
        return Fields(family.Pair, dict(x=x, y=b & 15, z=b >> 4)), raw

    def blob(self, src):
        n = src.byte(LENGTHS)
        raw = src.read(n, texts(n, b'\0'))
        return Fields(family.Blob, dict(n=n, data=bytearray(raw))), struct.pack('B', n) + raw

    def item_Nested(self, i, src):
        v, c = self.pair(src)
        return {i.name: v}, c

    def item_List3(self, i, src):
        raw = src.read(6, [spread(6), bytes(6), b'\xff' * 6, b'\0\1\0\2\3\0'])
        return {i.name: list(struct.unpack('>3H', raw))}, raw

    def item_Names(self, i, src):
        raw = src.read(4, self.letters(4, [b'a b ', b'a\0\0b', b'\x80abc', b'abc\xff', b'  ab']))
        parts = [text(raw[k:k + 2], 'ascii') for k in (0, 2)]
        return {i.name: [v for v, c in parts]}, join([None if c is None else c.ljust(2) for v, c in parts])

    def count(self, i, src):
        n = src.byte([2 + i.bias] + [x for x in LENGTHS if x != 2 + i.bias])
        if n < i.bias:
            raise Unspecified("negative size")
        return n - i.bias

    def counted(self, i, src, n, v, content):
        return {i.name: v, i.len_name: n + i.bias}, None if content is None else struct.pack('B', len(content) // i.unit + i.bias) + content

    def item_Bytes(self, i, src):
        n = self.count(i, src)
        raw = src.read(n, texts(n, b'\0'))
        return self.counted(i, src, n, bytearray(raw), raw)

    item_BytesPlus = item_Bytes

    def item_Text(self, i, src):
        n = self.count(i, src)
        raw = src.read(n, texts(n, b' ') + [x * n for x in (b'\x80', b'\xe9') if n])
        v, c = text(raw, 'ascii')
        return self.counted(i, src, n, v, c)

    def item_List16(self, i, src):
        n = self.count(i, src)
        raw = src.read(2 * n, [spread(2 * n), bytes(2 * n), b'\xff' * 2 * n])
        return self.counted(i, src, n, list(struct.unpack('>%dH' % n, raw)), raw)

    def item_ListPairs(self, i, src):
        n = self.count(i, src)
        v, canon = [], b''
        for k in range(n):
            far = 1 <= k < n - 1
            src.frozen += far
            x, c = self.pair(src)
            src.frozen -= far
            v.append(x)
            canon += c
        return self.counted(i, src, n, v, canon)

    def item_FuncBytes(self, i, src):
        n = src.byte([6, 0, 1, 2, 3, 4, 5, 7, 8, 9, 127, 128, 254, 255])
        raw = src.read(n // 3, texts(n // 3, b'\0'))
        return {i.name: bytearray(raw), i.len_name: n}, struct.pack('B', n // 3 * 3) + raw

    def item_Clamped(self, i, src):
        n = src.byte([2, 0, 1, 3, 4, 127, 128, 255])
        w = min(max(n, 1), 3)
        raw = src.read(w, texts(w, b'\0'))
        return {i.name: bytearray(raw), i.len_name: n}, struct.pack('B', n) + raw

    def item_Cond(self, i, src):
        n = src.byte([1, 0, 2, 128, 255])
        raw = src.read(2, [spread(2), b'\0\0', b'\xff\xff', b'\0\1'])
        if n:
            return {i.len_name: n, i.name: struct.unpack('>H', raw)[0]}, struct.pack('B', n) + raw
        src.skipped = True
        src.needed = max(src.needed, src.at - 2)
        # the place is there as long as something follows or the whole record has a fixed size
        if i is self.program.items[-1] and not self.program.static:
            return {i.len_name: n, i.name: None}, b'\0'
        if i is not self.program.items[-1] and self.program.items[-1].open:
            # the same, if what follows may be empty
            return {i.len_name: n, i.name: None}, None
        return {i.len_name: n, i.name: None}, b'\0\0\0'

    def item_Chosen(self, i, src):
        n = src.byte([0, 1, 2, 128, 255])
        start = src.at
        if n > 1:
            src.read(3, [spread(3)])
            raise Reject("no record for %d" % n)
        if n == 0:
            v, c = self.pair(src)
            return {i.len_name: n, i.name: v}, b'\0' + c
        raw = src.read(3, [b'\2ab', b'\0\0\0', b'\1\0\xff', b'\3ab', b'\xff\xff\xff', b'\x80\0\0'])
        k = bytearray(raw)[0]
        if k > 2:
            raise Reject("the record is larger than its place")
        return {i.len_name: n, i.name: Fields(family.Blob, dict(n=k, data=bytearray(raw[1:1 + k])))}, None

    # open places

    def rest(self, src, alternatives):
        out = src.choose(alternatives)
        src.data += out
        src.at += len(out)
        return out

    def item_TailBytes(self, i, src):
        raw = self.rest(src, [b'\0\xfe', b'', b'\0', b'\xff' * 200])
        return {i.name: bytearray(raw)}, raw

    def item_TailText(self, i, src):
        raw = self.rest(src, [b'xy z', b'', b' ', b'\0', b' x', b'x  ', b'x\0\0', b'\0x', b'\x80', b'x\xff', b'a b' * 50, b'\n'])
        v, c = text(raw, 'ascii')
        return {i.name: v}, c

    def item_TailList(self, i, src):
        raw = self.rest(src, [spread(8), b'', spread(4), spread(5), spread(7), b'\0', b'\xff' * 12, b'\x80' * 3, spread(80)])
        if len(raw) % 4:
            raise Reject("the last element is cut")
        return {i.name: list(struct.unpack('<%dl' % (len(raw) // 4), raw))}, raw

    BLOBS = [b'\2ab\0\1z', b'', b'\0', b'\0\0\0', b'\3ab', b'\1', b'\xff' + b'z' * 255, b'\xff' + b'z' * 254, b'\1a\5bcd', b'\0\1', b'\1a\0\2bc\4']

    def blobs(self, raw, most=None):
        v, at = [], 0
        while at < len(raw) and (most is None or len(v) < most):
            n = bytearray(raw)[at]
            if at + 1 + n > len(raw):
                raise Reject("the last element is cut")
            v.append(Fields(family.Blob, dict(n=n, data=bytearray(raw[at + 1:at + 1 + n]))))
            at += 1 + n
        return v, raw[:at]

    def item_TailBlobs(self, i, src):
        v, c = self.blobs(self.rest(src, self.BLOBS))
        return {i.name: v}, c

    def item_TailCounted(self, i, src):
        n = src.byte([2, 0, 1, 3, 4, 255])
        src.needed = src.at
        raw = self.rest(src, self.BLOBS)
        v, c = self.blobs(raw, n)
        return {i.name: v, i.len_name: n}, None if len(v) != n else struct.pack('B', n) + c

    def item_TailNested(self, i, src):
        v, c = self.blob(src)
        src.needed = src.at
        self.rest(src, [b'', b'\1\2'])
        return {i.name: v}, c

    def item_TailJson(self, i, src):
        raw = self.rest(src, [b'{"a": [1, null]}', b'7', b' 7 ', b'', b' ', b'{', b'nul', b'\xff', b'[1,]', b'"\\u00e9"', b'"\xc3\xa9"', b'-1.5e3', b'[[], {}, true]',
                              b'{"a": 1, "a": 2}', b"{'a': 1}", b'7 8', b'07', b'"a\nb"', b'NaN', b'1,', b'[1 2]', b'"a'])
        try:
            v = json.loads(raw.decode('ascii').strip(' \0'))
        except ValueError:
            raise Reject("not JSON")
        return {i.name: v}, json.dumps(v).encode()

    def item_TotalRest(self, i, src):
        at = src.at
        n, = struct.unpack('>H', src.read(2, [struct.pack('>H', at + k) for k in (5, 2, 3, 1, 0, 100, 400)] + [b'\0\0', b'\xff\xff', b'\0\1']))
        if n < at + 2:
            raise Unspecified("ends before it starts")
        if n > at + 700:
            raise Reject("more than there is")
        raw = src.read(n - at - 2, texts(n - at - 2, b'\0'))
        return {i.name: bytearray(raw), i.len_name: n}, b'??' + raw


class Fields(object):
    """A record with these values of its fields."""

    def __init__(self, cls, attrs):
        self.cls, self.attrs = cls, attrs

    def __repr__(self):
        return "%s(%r)" % (self.cls.__name__, self.attrs)


def same_fields(got, v):
    if isinstance(v, Fields):
        return type(got) == v.cls and all(same_fields(getattr(got, k), x) for k, x in v.attrs.items())
    if isinstance(v, OneOf):
        return any(same_fields(got, x) for x in v.values)
    if isinstance(v, list):
        return isinstance(got, list) and len(got) == len(v) and all(same_fields(g, x) for g, x in zip(got, v))
    return same(got, v)


# Items that are only decoded here

class S16(family.Fixed):
    kind, static, field = 'ls16', 2, staticmethod(lambda **kw: int_field(endian='little', **kw))


class F32(family.Fixed):
    kind, static, field = 'f32', 4, staticmethod(lambda **kw: float_field(endian='little', **kw))


class Right(family.Fixed):
    kind, static, field = 'right', 3, staticmethod(lambda **kw: str_field(encoding='utf-8', justify='right', padding=b'*', **kw))


class Names(family.Fixed):
    kind, static, field = 'names', 4, staticmethod(lambda **kw: list_field(str_type_factory(byte_size=2), n=2, **kw))


class Cond(family.Item):
    kind, static = 'cond', 3

    def add(self, attrs, start):
        flag = attrs[self.len_name] = uint_field(where=bytes_ref[start])
        attrs[self.name] = be_uint_field(where=bytes_ref[start + 1:start + 3], pack_if=flag, unpack_if=flag)


class Chosen(family.Item):
    kind, static = 'chosen', 4

    def add(self, attrs, start):
        attrs[self.len_name] = uint_field(where=bytes_ref[start])
        tag = self.len_name
        attrs[self.name] = buffer_field(family.Pair, where=bytes_ref[start + 1:start + 4], unpack_after=attrs[tag],
                                        unpack_selector=lambda obj, buffer, **kw: {0: family.Pair, 1: family.Blob}[getattr(obj, tag)])


class TailCounted(family.Item):
    kind, open = 'n blobs...', True

    def add(self, attrs, start):
        n = attrs[self.len_name] = uint_field(where=bytes_ref[start])
        attrs[self.name] = list_field(family.Blob, n=n, where=bytes_ref[start + 1:])

    def size_ref(self, attrs):
        return None


OTHER = [S16, F32, Right, Names, Cond, Chosen]
OTHER_TAILS = [TailCounted]
for c in OTHER + OTHER_TAILS:
    family.KINDS[c.kind] = c
