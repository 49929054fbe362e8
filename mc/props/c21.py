"""C21: streams that end early or hand out less than asked for never give an object."""
import io
import itertools
from mc.core import Space
from mc import sfamily
from mc.sfamily import StructItem, Rec, construct, same, show, ALL, SIMPLE, COMPOSITE, parse
from mc.props.c14 import NESTED, PAIRS, TRIPLES

ID = 'C21'
RULE = ('a case is one struct (or type by itself) of the grammar of C14 and one of its values: the stream ends after every proper prefix, '
        'every single read is short by every amount, returns nothing or fails, and every pair of two reads is short by one')
ASSUMPTIONS = ['a short read that does not lose any content (look-ahead) may be made up for instead of being an error']


class Faulty(object):
    """Hands out less than asked for in some of the reads."""

    def __init__(self, data, faults):
        self.data, self.at, self.reads, self.faults = data, 0, [], faults

    def read(self, n):
        k = len(self.reads)
        self.reads.append(n)
        fault = self.faults.get(k)
        if fault == 'raise':
            raise IOError("injected")
        if fault == 'none':
            return None
        if fault is not None:
            n = max(0, n - fault)
        out = self.data[self.at:self.at + n]
        self.at += len(out)
        return out


class WithTell(Faulty):
    def tell(self):
        return self.at


def check(ctx, create, value, data, what, deep):
    def complete():
        got = create(Faulty(data, {}))
        if not same(got, value):
            ctx.fail("%s after failures: %s instead of %s", what, show(got), value)
    complete()
    for end in range(len(data)):
        for stream in (io.BytesIO(data[:end]), Faulty(data[:end], {})):
            ctx.rejects(lambda: create(stream), "%s from %d of %d bytes" % (what, end, len(data)))
        ctx.state(what, end)
        ctx.step(2)
    complete()
    probe = WithTell(data, {})
    create(probe)
    reads = probe.reads
    for k, n in enumerate(reads):
        if n == 0:
            continue
        for fault in list(range(1, n + 1) if n <= 4 else (1, 2, n // 2, n - 1, n)) + ['none', 'raise']:
            for cls in (Faulty, WithTell):
                attempt(ctx, create, cls(data + b'\x01\x01\x01\x01\x01\x01\x01\x01', {k: fault}), value, "%s, read %d (of %d) %s" % (what, k, n, fault))
            ctx.state(what, k, fault)
    complete()
    if deep:
        for k, l in itertools.combinations([i for i, n in enumerate(reads) if n], 2):
            attempt(ctx, create, Faulty(data + b'\x01\x01\x01\x01', {k: 1, l: 1}), value, "%s, reads %d and %d" % (what, k, l))
        complete()
    ctx.trace()


def attempt(ctx, create, stream, value, what):
    ctx.step()
    try:
        got = create(stream)
    except Exception:
        ctx.outcome('rejected')
        return
    if not same(got, value):
        ctx.fail("%s gave %s instead of an error or %s", what, show(got), value)
    ctx.outcome('made up for')


class Top(StructItem):
    pass


def run(case, ctx):
    items, deep = case
    s = Top(items, name='Top')
    cls = s.define()
    for v in s.values():
        data = s.encode(v)
        if len(data) > 600:
            continue
        check(ctx, cls.create_from_stream, v, data, "%s" % (v,), deep)
        for end in range(len(data)):
            ctx.rejects(lambda: cls.create_from_string(data[:end]), "%s from a string with %d of %d bytes" % (v, end, len(data)))
    ctx.outcome('ok')


def run_type(case, ctx):
    expr = case
    t = parse(expr)
    m = t.marshal()
    for v in t.values():
        data = t.encode(v)
        check(ctx, m.create_from_stream, v, data, "%s as %s" % (v, expr), True)
        for end in range(len(data)):
            ctx.rejects(lambda: m.create_from_string(data[:end]), "%s as %s from a string with %d of %d bytes" % (v, expr, end, len(data)))
    ctx.outcome('ok')


def types():
    for e in SIMPLE + COMPOSITE + NESTED:
        if isinstance(e, str) or e[0] not in ('opt', 'lazy', 'const'):
            yield e
            for wrap in (['farr', 2, e], ['varr', e], ['sarr', e], ['farr', 1, ['varr', e]], ['sarr', ['struct', [e, 'u8']]]):
                t = parse(wrap[1]) if wrap[0] == 'sarr' else None
                if wrap[0] != 'sarr' or all(t.encode(v) for v in t.values()):
                    yield wrap


def gen(n, alphabet, deep):
    return lambda: ([list(items), deep] for items in itertools.product(alphabet, repeat=n))


LARGE = {'cut_struct': (8192, 12)}


def spaces(tier):
    quick = tier == 'quick'
    need = ['rejected', 'ok']
    return [
        Space('types', types, run_type, 'types by themselves and in arrays', need + ['made up for']),
        Space('one', gen(1, ALL + NESTED, True), run, 'every item alone', need),
        Space('two', gen(2, PAIRS + ['pad4', ['posbits', 1], 'f64', 'map'] if quick else ALL + NESTED, not quick), run, 'pairs of items', need),
        Space('three', gen(3, TRIPLES[:5] + [['lazy', ['u8', 'sle32']]] if quick else TRIPLES + PAIRS[:8], not quick), run, 'triples of items', need),
    ]
