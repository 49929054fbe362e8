"""Plain lists of bits: the reference model of everything that's addressed by bit in this library.

Bit k of a byte string is bit k % 8 (counted from the least significant) of byte k // 8.
"""


def to_bits(data):
    return [(byte >> k) & 1 for byte in bytearray(data) for k in range(8)]


def to_bytes(bits):
    return bytes(bytearray(sum(bit << k for k, bit in enumerate(bits[i:i + 8])) for i in range(0, len(bits), 8)))


def int_bits(value, n):
    return [(value >> k) & 1 for k in range(n)]


def bits_int(bits):
    return sum(bit << k for k, bit in enumerate(bits))


def patterns(nbytes):
    """Contents that tell any two bit positions apart: a one and a zero walking through the bytes, and mixes."""
    n = nbytes * 8
    yield bytes(nbytes)
    yield b'\xff' * nbytes
    yield bytes((0xA5, 0x3C, 0xF1, 0x9E, 0x5B, 0xC6, 0x0D, 0x72)[:nbytes])
    yield bytes((0x1B, 0xE4, 0x87, 0x62, 0xD9, 0x38, 0xF5, 0x4E)[:nbytes])
    for k in range(n):
        yield to_bytes([int(i == k) for i in range(n)])


def view_bits(ctx, view, what):
    """The bits of a BitView, after checking that every way of reading it gives the same ones."""
    text = view.to_bitstr()
    bits = [int(c) for c in reversed(text)]
    n = len(bits)
    data = to_bytes(bits)
    if not (view.length() * 8 == n and len(view) == len(data) and bytes(view.to_bytes()) == data
            and bytes(view.to_bytearray()) == data and bytes(bytearray(list(view))) == data
            and isinstance(view.to_bytes(), bytes) and isinstance(view.to_bytearray(), bytearray)):
        ctx.fail("%s: different readings of the same bits: bits=%s length=%r len=%r bytes=%r bytearray=%r items=%r",
                 what, text, view.length(), len(view), view.to_bytes(), view.to_bytearray(), list(view))
    read = view.to_bytearray()
    read[:] = [x ^ 0xff for x in read] + [77]
    if view.to_bitstr() != text:
        ctx.fail("%s: changing what to_bytearray returned changed %s to %s", what, text, view.to_bitstr())
    return bits
