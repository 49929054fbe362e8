"""C07: text, byte and JSON fields keep their content."""
import itertools
import json
from mc.core import Space
from mc.bits import to_bits, to_bytes
from mc.rec import record
from infi.instruct.buffer import (bytes_ref, str_field, bytearray_field, json_field, list_field, str_type,
                                  str_type_factory, num_ref, member_func_ref)

ID = 'C07'
RULE = ('a case is one field configuration (width, justification, padding, strip bytes, encoding, bit offset) and the start '
        'of its content; all strings over an alphabet with the padding, strip and multi-byte characters are packed, and '
        'all stored contents unpacked')
ASSUMPTIONS = ['text longer than its place may be cut or rejected',
               'stored strip bytes that are followed by padding may be kept or removed',
               'text that is centred may have its odd padding byte on either side']

CONFIGS = [
    # padding, strip, encoding, alphabet
    [b' ', b'\0', 'ascii', 'a \0b'],
    [b'x', b'\0', 'ascii', 'ax\0 '],
    [b'\0', b'\0', 'ascii', 'a\0 b'],
    [b' ', b'', 'ascii', 'a \0'],
    [b' ', b'\0\n', 'ascii', 'a \0\n'],
    [b'.', b'\0', 'utf-8', u'a.\xe9\u20ac'],
    [b'\0', b' ', 'latin-1', u'a \0\xff'],
    [b'\x40', b'\0', 'cp500', u'a \0Z'],
]


def place(first, width, form):
    """width in bytes, None for an open place"""
    if width is None:
        return bytes_ref[first // 8:]
    if form == 'computed':
        start = num_ref(member_func_ref(lambda obj: first // 8))
        return bytes_ref[start:start + width]
    if first % 8 or (form == 'bits' and width):
        return bytes_ref[0:(first + 7) // 8 + width].bits[first:first + width * 8]
    return bytes_ref[first // 8:first // 8 + width]


def strings(alphabet, top):
    for n in range(top + 1):
        for chars in itertools.product(alphabet, repeat=n):
            yield u''.join(chars)


def stripped(raw, justify, strip, padding):
    """-> acceptable texts"""
    def right(s):
        return s.rstrip(strip).rstrip(padding) if strip else s.rstrip(padding)

    def left(s):
        return s.lstrip(strip).lstrip(padding) if strip else s.lstrip(padding)
    both = strip + padding
    if justify == 'left':
        return set([right(raw), raw.rstrip(both)])
    if justify == 'right':
        return set([left(raw), raw.lstrip(both)])
    return set(r for s in (left(raw), raw.lstrip(both)) for r in (right(s), s.rstrip(both)))


def padded(data, width, justify, padding):
    n = width - len(data)
    if justify == 'left':
        return [data + padding * n]
    if justify == 'right':
        return [padding * n + data]
    return [padding * (n // 2) + data + padding * (n - n // 2), padding * (n - n // 2) + data + padding * (n // 2)]


def run_text(case, ctx):
    config, justify, width, first, form, top = case
    padding, strip, encoding, alphabet = CONFIGS[config]
    cls = record({'f': str_field(encoding=encoding, padding=padding, strip=strip, justify=justify,
                                 where=place(first, width, form))})

    def wrap(data):
        return to_bytes([0] * first + to_bits(data))
    for text in strings(alphabet, top):
        what = "%r as %s" % (text, case)
        data = text.encode(encoding)
        obj = cls(f=text)
        if width is not None and len(data) > width:
            try:
                got = obj.pack()
            except Exception:
                continue
            ctx.eq(len(got), len(wrap(bytes(width))), what + ": length of text that is too long")
            ctx.outcome('too long')
            continue
        got = bytes(obj.pack())
        wants = [wrap(x) for x in (padded(data, width, justify, padding) if width is not None else [data])]
        ctx.true(got in wants, "packed %s: got %r, expected %r" % (what, got, wants))
        back = cls()
        back.unpack(got)
        raw = to_bytes(to_bits(got)[first:first + len(to_bits(wants[0])) - first])[:width if width is not None else len(data)]
        check_read(ctx, back.f, raw, case, "read back " + what)
        ctx.step()
        ctx.state(config, justify, width, text)
    # everything that may be stored, also by others
    codes = sorted(set(bytearray(alphabet.encode(encoding))))
    n = width if width is not None else min(top, 3)
    for raw in itertools.product(codes, repeat=n):
        raw = bytes(bytearray(raw))
        obj = cls()
        try:
            raw.decode(encoding)
            ok = True
        except UnicodeDecodeError:
            ok = False
        trailing = [b''] if width is None else [b'', b'\0 a']
        for extra in trailing:
            if not ok:
                kept = [s for s in stripped(raw, justify, strip, padding)]
                try:
                    for s in kept:
                        s.decode(encoding)
                except UnicodeDecodeError:
                    ctx.rejects(lambda: obj.unpack(wrap(raw + extra)), "undecodable %r" % (raw,))
                continue
            obj.unpack(wrap(raw + extra))
            check_read(ctx, obj.f, raw, case, "read from %r" % (raw,))
            ctx.step()
    ctx.outcome(justify)
    ctx.trace()


def check_read(ctx, got, raw, case, what):
    config, justify = case[:2]
    padding, strip, encoding, _ = CONFIGS[config]
    wants = []
    for s in stripped(raw, justify, strip, padding):
        try:
            wants.append(s.decode(encoding))
        except UnicodeDecodeError:
            pass
    ctx.true(got in wants and isinstance(got, str), "%s: got %r, expected %r" % (what, got, wants))


def gen_text(configs, widths, firsts, forms, top):
    def gen():
        for width in widths:
            for config in configs:
                for justify in ('left', 'right', 'center'):
                    for first in firsts:
                        for form in forms:
                            if (form == 'bits' or first % 8) and not width:
                                continue
                            if form == 'computed' and (first % 8 or width is None):
                                continue
                            yield [config, justify, width, first, form, top]
    return gen


def run_bad_text(case, ctx):
    kind = case
    if kind == 'ascii':
        cls = record({'f': str_field(where=bytes_ref[0:4])})
        for text in (u'\xe9', u'a\u20ac', u'\x80'):
            ctx.rejects(lambda: cls(f=text).pack(), "%r as ascii" % (text,))
        for raw in (b'\x80abc', b'abc\xff', b'a\xc3\xa9b'):
            ctx.rejects(lambda: cls().unpack(raw), "%r as ascii" % (raw,))
    else:
        for padding in (b'', b'ab'):
            ctx.rejects(lambda: record({'f': str_field(where=bytes_ref[0:4], padding=padding)})(f='a').pack(), "padding %r" % (padding,))
        ctx.rejects(lambda: record({'f': str_field(where=bytes_ref[0:4], justify='middle')})(f='a').pack(), "justify='middle'")
    ctx.trace()


# ---------------------------------------------------------------- lists of fixed size strings

def run_text_list(case, ctx):
    config, justify, size, count, place_kind = case
    padding, strip, encoding, alphabet = CONFIGS[config]
    element = str_type_factory(encoding=encoding, padding=padding, strip=strip, justify=justify, byte_size=size)
    where = bytes_ref[1:] if place_kind == 'open' else bytes_ref[1:1 + size * count]
    cls = record({'f': list_field(element, where=where, n=count if place_kind == 'counted' else None)})
    texts = [t for t in strings(alphabet[:3], size) if len(t.encode(encoding)) <= size]
    for chosen in itertools.product(texts[:6] + texts[-4:], repeat=count):
        got = bytes(cls(f=list(chosen)).pack())
        parts = [padded(t.encode(encoding), size, justify, padding) for t in chosen]
        wants = [b'\0' + b''.join(p) for p in itertools.product(*parts)] if count else [b'\0']
        what = "list %r as %s" % (chosen, case)
        if count or place_kind != 'open':
            ctx.true(got in wants, "%s: got %r, expected %r" % (what, got, wants))
        back = cls()
        back.unpack(wants[0])
        ctx.eq(len(back.f), count, what + ": elements")
        for k, s in enumerate(back.f):
            check_read(ctx, s, wants[0][1 + k * size:1 + k * size + size], [config, justify], what)
        ctx.step()
    ctx.state(case)
    ctx.trace()


# ---------------------------------------------------------------- bytes

def run_bytes(case, ctx):
    width, first, form = case
    cls = record({'f': bytearray_field(where=place(first, width, form))})
    for n in ([width] if width is not None else range(0, 5)):
        for fill in itertools.product((0, 0x80, 0xFF, 0x31), repeat=n):
            data = bytes(bytearray(fill))
            want = to_bytes([0] * first + to_bits(data))
            for value in (data, bytearray(data)):
                ctx.eq(bytes(cls(f=value).pack()), want, "bytes %r as %s" % (data, case))
            for src in (want + (b'\x5a\xa5' if width is not None else b''), bytearray(want)):
                obj = cls()
                obj.unpack(src)
                if not (obj.f == bytearray(data) and isinstance(obj.f, bytearray)):
                    ctx.fail("bytes %r as %s: read %r", data, case, obj.f)
                before = bytes(src)
                obj.f.extend(b'zz')
                if data:
                    obj.f[0] ^= 0xFF
                ctx.eq(bytes(src), before, "the input after changing the field that was read from it")
            value = bytearray(data)
            packed = cls(f=value).pack()
            if packed:
                packed[-1] ^= 0xFF
            ctx.eq(value, bytearray(data), "the field after changing the packed form")
            ctx.step()
            ctx.state(width, first, data)
    ctx.trace()


def gen_bytes(widths, firsts):
    def gen():
        for width in widths:
            for first in firsts:
                for form in ('place', 'bits', 'computed'):
                    if (form == 'bits' or first % 8) and not width:
                        continue
                    if form == 'computed' and (first % 8 or width is None):
                        continue
                    yield [width, first, form]
    return gen


# ---------------------------------------------------------------- JSON

SCALARS = [None, True, False, 0, -1, 1.5, 10, 1e300, 12345678901234567890, "", "a", " a ", "\0", "\"\\", u"\xe9\u20ac", "x\n"]


def documents(depth, few=False):
    scalars = SCALARS if not few else [None, 10, " a ", u"\xe9", 1.5]
    for s in scalars:
        yield s
    if depth == 0:
        return
    inner = list(documents(depth - 1, True))
    yield []
    yield {}
    for x in inner:
        yield [x]
        yield {"k": x}
        yield {" ": x, "": None}
        for y in inner[:6]:
            yield [x, y]
            yield {"b": x, "a": y}


def run_json(case, ctx):
    doc, mode = case
    n = len(json.dumps(doc))
    where = {'open': bytes_ref[1:], 'exact': bytes_ref[1:1 + n], 'wide': bytes_ref[1:1 + n + 5],
             'bits': bytes_ref[0:n + 4].bits[5:5 + 8 * (n + 2)],
             'computed': bytes_ref[1:1 + num_ref(member_func_ref(lambda obj: n + 1))]}[mode]
    cls = record({'f': json_field(where=where)})
    packed = bytes(cls(f=doc).pack())
    obj = cls()
    obj.unpack(packed + (b'' if mode == 'open' else b'}]"x'))
    if not (obj.f == doc and type(obj.f) == type(doc) and json.dumps(obj.f) == json.dumps(doc)):
        ctx.fail("document %r in a place (%s): read %r from %r", doc, mode, obj.f, packed)
    ctx.eq(bytes(obj.pack()), packed, "repacked document %r" % (doc,))
    if mode in ('open', 'exact', 'wide', 'computed'):
        ctx.eq(json.loads(packed[1:].decode('ascii')), doc, "stored document")
        obj = cls()                      # terminated and padded by others
        text = json.dumps(doc).encode()
        room = {'exact': 0, 'wide': 5, 'computed': 1, 'open': 3}[mode]
        for fill in (b'\0' * room, b' ' * room, (b' \0\0\0\0' * 2)[:room], b'\n' * room):
            obj.unpack(b'\0' + text + fill)
            ctx.eq(obj.f, doc, "document %r filled with %r" % (doc, fill))
    for bad in (object(), set(), b'x'):
        ctx.rejects(lambda: cls(f=bad).pack(), "%r as JSON" % (bad,))
    ctx.state(json.dumps(doc), mode)
    ctx.trace()


def run_bad_json(case, ctx):
    cls = record({'f': json_field(where=bytes_ref[0:])})
    ctx.rejects(lambda: cls().unpack(bytes(bytearray(case))), "unpacking %r as JSON" % (case,))
    ctx.trace()


# ---------------------------------------------------------------- arguments that are left out

DEFAULTS = dict(encoding='ascii', padding=b' ', strip=b'\0', justify='left')
GIVEN = dict(encoding='cp500', padding=b'x', strip=b'\n', justify='right')


def run_defaults(case, ctx):
    """arguments that are not given have their documented defaults"""
    form, names = case
    given = dict((n, GIVEN[n]) for n in names)
    options = dict(DEFAULTS, **given)
    size = 3
    if form == 'field':
        cls = record({'f': str_field(where=bytes_ref[0:size], **given)})
    elif form == 'factory':
        cls = record({'f': list_field(str_type_factory(byte_size=size, **given), where=bytes_ref[0:size])})
    elif form == 'factory-n':
        cls = record({'f': list_field(str_type_factory(byte_size=size, **given), n=1, where=bytes_ref[0:])})
    elif form == 'unsized':                # the one element takes the whole place
        cls = record({'f': list_field(str_type_factory(**given), n=1, where=bytes_ref[0:size])})
    else:
        cls = record({'f': list_field(str_type, n=1, where=bytes_ref[0:size])})
    wrap = (lambda x: x) if form == 'field' else (lambda x: [x])
    for text in strings('a \0\nx', size):
        data = text.encode(options['encoding'])
        what = "%r with %r" % (text, case)
        got = bytes(cls(f=wrap(text)).pack())
        wants = padded(data, size, options['justify'], options['padding'])
        if form in ('unsized', 'str_type'):
            wants = wants + [data]         # the element has no size of its own
        ctx.true(got in wants, "packed %s: got %r, expected %r" % (what, got, wants))
        back = cls()
        back.unpack(wants[0])
        got = back.f if form == 'field' else back.f[0]
        ctx.eq(1 if form == 'field' else len(back.f), 1, what + ": elements")
        texts = [s.decode(options['encoding']) for s in
                 stripped(wants[0], options['justify'], options['strip'], options['padding'])]
        ctx.true(got in texts, "read back %s: got %r, expected %r" % (what, got, texts))
        ctx.step()
    for bad in (u'\u20ac', u'\xe9') if options['encoding'] == 'ascii' else (u'\u20ac',):
        ctx.rejects(lambda: cls(f=wrap(bad)).pack(), "%r as %s" % (bad, options['encoding']))
    ctx.state(form, names)
    ctx.trace()


def gen_defaults():
    for form in ('field', 'factory', 'factory-n', 'unsized'):
        for k in range(5):
            for names in itertools.combinations(sorted(DEFAULTS), k):
                yield [form, list(names)]
    yield ['str_type', []]


LARGE = {'text': (8192, 24)}


def spaces(tier):
    quick = tier == 'quick'
    return [
        Space('text', gen_text(range(8), [0, 1, 2, 3, 4], [0, 8], ['place'], 4) if quick else
              gen_text(range(8), [0, 1, 2, 3, 4, 5], [0, 8, 16], ['place', 'computed'], 5), run_text,
              'text fields of every configuration', ['left', 'right', 'center', 'too long']),
        Space('text-open', gen_text(range(8), [None], [0, 8], ['place'], 3 if quick else 4), run_text, 'text in open places',
              ['left', 'right', 'center']),
        Space('text-bits', gen_text([0, 2, 5], [1, 2, 3], [0, 3, 12] if quick else range(1, 17), ['bits'], 3), run_text,
              'text in bit positions', ['left', 'right', 'center']),
        Space('text-computed', gen_text([0, 1, 5], [0, 1, 3], [8], ['computed'], 3), run_text, 'text in computed places'),
        Space('bad-text', lambda: iter(['ascii', 'padding']), run_bad_text, 'unencodable text and wrong configurations', ['rejected']),
        Space('text-list', lambda: ([c, j, s, n, p] for c in range(8) for j in ('left', 'right', 'center')
                                    for s in ((1, 2, 3) if quick else (1, 2, 3, 4)) for n in (range(3) if quick else range(4))
                                    for p in ('open', 'closed', 'counted')), run_text_list, 'lists of fixed size strings'),
        Space('defaults', gen_defaults, run_defaults, 'string fields and element types with any of the arguments left out', ['rejected']),
        Space('bytes', gen_bytes([0, 1, 2, 3, None] if quick else [0, 1, 2, 3, 4, 5, None], [0, 8, 3] if quick else range(10)), run_bytes,
              'byte fields'),
        Space('json', lambda: ([d, m] for d in documents(1 if quick else 2) for m in ('open', 'exact', 'wide', 'bits', 'computed')),
              run_json, 'JSON documents', ['rejected']),
        Space('bad-json', lambda: iter([[], [0x5b], [0x80], [0x22, 0x61], [0x31, 0x20, 0x32], [0x20, 0x20]]), run_bad_json,
              'malformed documents', ['rejected']),
    ]
