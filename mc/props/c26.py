"""C26: every sequence of bytes is decoded as defined, or rejected."""
import io
import itertools
import struct
from mc.core import Space
from mc import decode, family, sfamily
from mc.family import Program
from mc.decode import Decoder
from mc.decode import Reject, Unspecified, explore, whole, same
from mc.sfamily import StructItem, show, ALL, SIMPLE, COMPOSITE, parse
from mc.props.c14 import NESTED, PAIRS, TRIPLES
from mc.props.c14 import Reader

ID = 'C26'
RULE = ('a case is one struct, type or record of a grammar; the reference decoder makes up the bytes as it reads them, with alternatives for every '
        'read: every string of bytes is taken in which at most one or two reads differ from the first alternative (single bytes that decide: all 256 '
        'values), valid or not, followed by nothing and by other bytes, and cut at every read')
ASSUMPTIONS = ['contents of padding and of bits without a field are ignored and written as defined',
               'a count or length below zero is rejected; a computed place that ends before it starts is not specified',
               'what a lazy group contains is rejected when it is looked at']


class Top(StructItem):
    pass


def checks(ctx, cls, src, result, what, seen):
    data = src.data
    if isinstance(result, Unspecified):
        ctx.outcome('unspecified')
        return
    if isinstance(result, Reject):
        for rest in (b'', b'\xff' * 300, b'\1' * 300)[:3 if len(data) < 40 else 1]:
            ctx.rejects(lambda: cls.create_from_string(data + rest), "%s from %r (%s)" % (what, data + rest[:4], result))
        ctx.rejects(lambda: cls.create_from_stream(Reader(data + bytes(300))), "%s from %r (%s)" % (what, data, result))
        ctx.step(3)
        ctx.outcome('rejected')
        return
    want, canon = result

    def good(got, how):
        if not same(got, want):
            ctx.fail("%s %s %r is %s instead of %s", what, how, data, show(got) if whole(want) else '(broken)', want)
        ctx.step()
    got = cls.create_from_string(data)
    good(got, 'from')
    stream = io.BytesIO(b'<' + data + b'\1\2\3')
    stream.seek(1)
    good(cls.create_from_stream(stream), 'from a stream with')
    ctx.eq(stream.tell(), 1 + len(data), "end of the stream after %s from %r" % (what, data))
    good(cls.create_from_stream(Reader(data + b'\0')), 'from a read-only stream with')
    if not whole(want):
        ctx.rejects(lambda: cls.write_to_string(got), "writing %s from %r" % (what, data))
        ctx.outcome('broken lazy')
        return
    out = cls.write_to_string(got)
    if canon is not None:
        ctx.eq(out, canon, "bytes of %s from %r" % (what, data))
        ctx.outcome('canonical' if canon == data else 'normalized')
    ctx.eq(cls.sizeof(got), len(out), "size of %s from %r" % (what, data))
    good(cls.create_from_string(out), 'again, as %r, from' % (out,))
    for end in src.cuts[:-1] + [len(data) - 1]:
        if 0 <= end < len(data) and data[:end] not in seen:
            seen.add(data[:end])
            ctx.rejects(lambda: cls.create_from_string(data[:end]), "%s from %r cut to %d bytes" % (what, data, end))


def run(case, ctx):
    items, deviations, sweep, part = case
    t = Top(items, name='Top')
    cls = t.define()
    seen = set()
    for src, result in explore(lambda s: decode.structure(t, s), deviations, sweep, part, 1200 if deviations < 2 else 300):
        checks(ctx, cls, src, result, str(items), seen)
        ctx.state(src.data)
    ctx.trace()


def run_type(case, ctx):
    expr, deviations, sweep, part = case
    t = parse(expr)
    m = t.marshal()
    seen = set()
    for src, result in explore(lambda s: decode.decode(t, s), deviations, sweep, part, 1200 if deviations < 2 else 300):
        checks(ctx, m, src, result, str(expr), seen)
        ctx.state(src.data)
    ctx.trace()


def run_record(case, ctx):
    kinds, style, names, deviations, sweep = case
    p = Program(kinds, style, names)
    cls = p.define()
    last = p.items[-1]
    seen = set()
    used = cls()
    for src, result in explore(Decoder(p), deviations, sweep, most=1200 if deviations < 2 else 300):
        data = src.data
        what = "%r from %r" % (p, data)
        ctx.state(data)
        if isinstance(result, Unspecified):
            ctx.outcome('unspecified')
            try:
                cls().unpack(data)
            except Exception:
                pass
            continue
        if isinstance(result, Reject):
            ctx.rejects(lambda: cls().unpack(data), "%s (%s)" % (what, result))
            if not last.open:
                ctx.rejects(lambda: used.unpack(bytearray(data + b'1' * 300)), "%s and more (%s)" % (what, result))
            ctx.step(2)
            ctx.outcome('rejected')
            continue
        want, canon = result

        def good(obj, want, how):
            for k, v in want.items():
                if not decode.same_fields(getattr(obj, k), v):
                    ctx.fail("%s of %s%s is %r instead of %r", k, what, how, getattr(obj, k), v)
            ctx.step()
        obj = cls()
        end = obj.unpack(data)
        good(obj, want, '')
        used.unpack(bytearray(data))
        good(used, want, ' in a used record')
        if p.bounded:
            for rest in (b'\0', b'\xff\1\2'):
                used.unpack(data + rest)
                good(used, want, ' and %r' % rest)
        if src.needed and not last.open or len(data) > src.needed:
            for cut in src.cuts + [src.needed - 1]:
                if 0 <= cut < src.needed and data[:cut] not in seen:
                    seen.add(data[:cut])
                    ctx.rejects(lambda: cls().unpack(data[:cut]), "%s cut to %d bytes" % (what, cut))
        if canon is None:
            continue
        out = obj.pack()
        ctx.eq(bytes(out), canon, "packing %s" % what)
        ctx.outcome('canonical' if canon == data else 'normalized')
        again = cls()
        again.unpack(out)
        ctx.eq(bytes(again.pack()), canon, "packing %s again" % what)
        for i in p.items:
            # lengths may have changed
            if not decode.same_fields(getattr(again, i.name), want[i.name]):
                ctx.fail("%s of %s again from %r is %r instead of %r", i.name, what, out, getattr(again, i.name), want[i.name])
        ctx.step(2)
    ctx.trace()


BODY = [c.kind for c in family.STATIC + family.DYNAMIC + decode.OTHER]
MOVING = [c.kind for c in family.DYNAMIC + decode.OTHER]
TAILS = [c.kind for c in family.TAILS + decode.OTHER_TAILS]


def gen_records(lengths, deviations, sweep=False, styles=family.STYLES, names=family.NAMES[:2], body=BODY, tails=True, some=None, turns=False):
    def g():
        turn = 0
        for n in lengths:
            for kinds in itertools.product(body, repeat=n):
                for tail in [[]] + [[t] for t in TAILS if tails]:
                    k = list(kinds) + tail
                    if not k or some and not any(x in some for x in k):
                        continue
                    dynamic = any(family.KINDS[x].static is None for x in k[:-1])
                    for name in names:
                        for style in (styles if not turns else [styles[turn % len(styles)]]) if dynamic else styles[:1]:
                            turn += 1
                            yield [k, style, name, deviations, sweep]
    return g


def gen_types(deviations, parts=1):
    return lambda: ([e, deviations, False, [k, parts]] for e in types() for k in range(parts))


def gen(n, alphabet, deviations, sweep=False, parts=1):
    return lambda: ([list(items), deviations, sweep, [k, parts]] for items in itertools.product(alphabet, repeat=n) for k in range(parts))


SIZED = [['sized', kind, size] for kind in ('str', 'buf') for size in ('SB8', 'UL16', 'SL32', 'UB64', 'map')] + \
        [['sized', kind, size, e] for kind in ('varr', 'sarr') for size in ('SB8', 'UL16', 'SL32', 'UB64', 'map') for e in ('be16', 'vstr', ['struct', ['u8', 'ptr']])]


def types():
    for e in SIMPLE + COMPOSITE + NESTED:
        if isinstance(e, str) or e[0] not in ('opt', 'lazy', 'const'):
            yield e
            for wrap in (['farr', 2, e], ['varr', e], ['sarr', e], ['sarr', ['struct', [e, 'u8']]]):
                if e == 'pad0' and wrap[0] != 'farr':
                    continue
                yield wrap
    for e in SIZED:
        yield e


def spaces(tier):
    need = ['rejected', 'canonical', 'normalized']
    if tier == 'quick':
        return [
            Space('bytes', gen(1, ALL + NESTED + SIZED, 1, True), run, 'every item alone, every value of every byte that decides', need),
            Space('one', gen(1, ALL + NESTED + SIZED, 2, False, 4), run, 'every item alone, two deviations', need + ['broken lazy']),
            Space('types', gen_types(1), run_type, 'types by themselves and in arrays', need),
            Space('two', gen(2, PAIRS, 1), run, 'pairs of items', need),
            Space('record', gen_records([0, 1], 1, True, ['after'], ['up']), run_record,
                  'records of an item and a tail, every value of every byte that decides', need),
            Space('records', gen_records([2], 1, False, family.STYLES, ['up'], tails=False, some=MOVING, turns=True), run_record, 'records of two items', need),
            Space('tails', gen_records([1], 1), run_record, 'records of an item and a tail, in all styles', need),
        ]
    return [
        Space('bytes', gen(1, ALL + NESTED + SIZED, 1, True), run, 'every item alone, every value of every byte that decides', need),
        Space('one', gen(1, ALL + NESTED + SIZED, 3, False, 16), run, 'every item alone, three deviations', need + ['broken lazy']),
        Space('types', gen_types(2, 4), run_type, 'types by themselves and in arrays', need),
        Space('two', gen(2, ALL + NESTED + SIZED, 1), run, 'pairs of items', need),
        Space('pairs', gen(2, PAIRS, 2), run, 'pairs of few items, two deviations', need),
        Space('three', gen(3, TRIPLES, 1), run, 'triples of items', need),
        Space('record', gen_records([0, 1], 2), run_record, 'records of an item and a tail, two deviations', need),
        Space('record bytes', gen_records([0, 1], 1, True), run_record, 'records of an item and a tail, every value of every byte that decides', need),
        Space('records', gen_records([2], 1, names=['up']), run_record, 'records of two items and a tail', need),
        Space('records 3', gen_records([3], 1, names=['down'], body=MOVING, tails=False, turns=True), run_record, 'records of three items', need),
    ]
