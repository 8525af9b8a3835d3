"""RLP and base64 of the Python contracts."""
from pe import *
from pyscore.lib.icon import rlp, base64


def header(base, n):
    """The canonical RLP header of n bytes."""
    if n <= 55:
        return bytes([base + n])
    k = (n.bit_length() + 7) // 8
    return bytes([base + 55 + k]) + n.to_bytes(k, 'big')


def rlp_bytes(b):
    if len(b) == 1 and b[0] < 0x80:
        return b
    return header(0x80, len(b)) + b


def VH_bytes():
    n = [0, 1, 2, 3, 54, 55, 56, 57, 255, 256, 257][Choose('n', 0, 10)]
    b = Bytes('b', min(n, 3)) + b'\x5a' * (n - min(n, 3))
    e = rlp.rlp_encode(b)
    Assert(e == rlp_bytes(b), 'bytes are encoded in the canonical form')
    Assert(rlp.rlp_decode(e) == b, 'bytes are recovered')
    Reach('bytes')


def VH_ints():
    w = [8, 16, 32, 64, 72][Choose('w', 0, 4)]
    v = Int('v', -(1 << (w - 1)), (1 << (w - 1)) - 1)
    e = rlp.rlp_encode(v)
    Assert(rlp.rlp_decode(e, int) == v, 'a number is recovered')
    b = rlp.rlp_decode(e)
    k = len(b)
    if k > 1:
        Assert(Or(v < -(1 << (8 * k - 9)), v >= 1 << (8 * k - 9)), 'a number is encoded with the fewest bytes')
    Reach('int')


def VH_text():
    s = Str('s', Choose('n', 0, 3))
    Assert(rlp.rlp_decode(rlp.rlp_encode(s), str) == s, 'a text is recovered')
    b = Bool('b')
    if b:
        b = True
    else:
        b = False
    Assert(rlp.rlp_decode(rlp.rlp_encode(b), bool) == b, 'a truth value is recovered')
    Reach('text')


def item(n, depth):
    k = Choose(n + 'k', 0, 3 if depth else 2)
    if k == 0:
        return None
    if k == 1:
        return Bytes(n, Choose(n + 'n', 0, 2))
    if k == 2:
        return b'\x61' * [54, 55, 56][Choose(n + 'l', 0, 2)]
    return [item(n + str(i), depth - 1) for i in range(Choose(n + 'c', 0, 2))]


def spec(v):
    if v is None:
        return b'\xf8\x00'
    if isinstance(v, bytes):
        return rlp_bytes(v)
    out = b''
    for x in v:
        out = out + spec(x)
    return header(0xc0, len(out)) + out


def same(v, e):
    """e decodes to v, item by item."""
    if isinstance(v, list):
        l = rlp.rlp_decode(e, list)
        Assert(isinstance(l, list) and len(l) == len(v), 'a list is recovered with its items')
        for x, y in zip(v, l):
            same(x, y)
    else:
        Assert(rlp.rlp_decode(e) == v, 'an item is recovered')


def VH_list():
    v = [item('i' + str(i), 1) for i in range(Choose('n', 0, 2))]
    e = rlp.rlp_encode(v)
    Assert(e == spec(v), 'a list is encoded in the canonical form')
    same(v, e)
    Reach('list')


def VH_struct():
    h = Int('h', -(1 << 31), (1 << 31) - 1)
    s = Str('s', 2)
    b = Bytes('b', 2)
    t = Int('t', -(1 << 15), (1 << 15) - 1)
    e = rlp.rlp_encode([h, s, b, [t, b], [b, s, b]])
    r = rlp.rlp_decode(e, [int, str, bytes, [int, bytes], {list: bytes}])
    Assert(And(r[0] == h, r[1] == s, r[2] == b, r[3][0] == t, r[3][1] == b), 'the fields are recovered with their types')
    Assert(And(len(r[4]) == 3, r[4][0] == b, r[4][1] == s.encode('utf-8')), 'the list in it is recovered')
    bad, _ = Refused(rlp.rlp_decode, e, [int, str, bytes, [int, bytes]])
    Assert(bad, 'more fields than known are refused')
    bad, _ = Refused(rlp.rlp_decode, e + b'\x00', [int, str, bytes, [int, bytes], {list: bytes}])
    Assert(bad, 'bytes after the end are refused')
    bad, _ = Refused(rlp.rlp_decode, e[:-1], [int, str, bytes, [int, bytes], {list: bytes}])
    Assert(bad, 'missing bytes are refused')
    Reach('struct')


def parse(b):
    """(kind, begin, size) of the first item, or None if it is not complete."""
    if len(b) == 0:
        return None
    h = b[0]
    if h < 0x80:
        return 's', 0, 1
    if h < 0xb8:
        k, ts, n = 's', 1, h - 0x80
    elif h < 0xc0:
        k, ts, n = 's', h - 0xb7 + 1, None
    elif h < 0xf8:
        k, ts, n = 'l', 1, h - 0xc0
    else:
        k, ts, n = 'l', h - 0xf7 + 1, None
    if n is None:
        if ts > len(b):
            return None
        n = int.from_bytes(b[1:ts], 'big')
    if ts + n > len(b):
        return None
    return k, ts, n


def VH_hostile():
    b = Bytes('b', Choose('n', 0, 5 if Thorough() else 4))
    p = parse(b)
    bad, r = Refused(rlp.rlp_decode, b)
    if p is None or p[1] + p[2] != len(b):
        Assert(bad, 'what is not one whole item is refused')
        Reach('refused')
        return
    k, ts, n = p
    if k == 's':
        Assert(not bad and r == b[ts:], 'the bytes of the item are read')
        Reach('bytes')
        return
    if ts == 2 and n == 0:
        Assert(not bad and r is None, 'the empty long list is nothing')
        return
    Assert(bad, 'a list is no bytes')
    items, rest, ok = [], b[ts:], True
    while len(rest) > 0:
        p = parse(rest)
        if p is None:
            ok = False
            break
        items.append(rest[:p[1] + p[2]])
        rest = rest[p[1] + p[2]:]
    bad, r = Refused(rlp.rlp_decode, b, list)
    Assert(bad == (not ok), 'a list is read exactly if its items are whole')
    if ok:
        Assert(len(r) == len(items), 'every item is read once')
        for x, y in zip(items, r):
            Assert(x == y, 'the items are read in their order')
        Reach('list')


CHARS = 'ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_'


def VH_base64():
    b = Bytes('b', Choose('n', 0, 7))
    s = base64.urlsafe_b64encode(b)
    n = len(b)
    Assert(len(s) == (n + 2) // 3 * 4, 'base64 has four characters for three bytes')
    bits = int.from_bytes(b, 'big') << (6 - 8 * n % 6) % 6
    m = (8 * n + 5) // 6
    for i in range(m):
        Assert(s[i] == CHARS[(bits >> (6 * (m - 1 - i))) & 63], 'base64 is the standard one with the URL alphabet')
    for i in range(m, len(s)):
        Assert(s[i] == '=', 'base64 is padded')
    Assert(base64.urlsafe_b64decode(s) == b, 'bytes are recovered from base64')
    Assert(base64.urlsafe_b64decode(s[:m]) == b, 'bytes are recovered from base64 without padding')
    Reach('base64')


def digit(c):
    if c >= 'A' and c <= 'Z':
        return ord(c) - 65
    if c >= 'a' and c <= 'z':
        return ord(c) - 71
    if c >= '0' and c <= '9':
        return ord(c) + 4
    if c == '-':
        return 62
    if c == '_':
        return 63
    return None


def VH_base64_hostile():
    n = Choose('n', 0, 5 if Thorough() else 4)
    s = Str('s', n)
    bad, r = Refused(base64.urlsafe_b64decode, s)
    bits, m, ok = 0, 0, True
    for c in s:
        if c == '=':
            break
        d = digit(c)
        if d is None:
            ok = False
            break
        bits, m = bits << 6 | d, m + 1
    if not ok:
        Assert(bad, 'a text with other characters is refused')
        Reach('other')
        return
    pad = n - m
    for i in range(m, n):
        if s[i] != '=':
            Assert(bad, 'nothing follows the padding')
            Reach('after')
            return
    if m % 4 == 1 or pad > (4 - m % 4) % 4:
        Assert(bad, 'a wrong padding is refused')
        Reach('padding')
        return
    if pad > 0 and (m + pad) % 4 != 0:
        return  # padded in part: either way
    Assert(not bad, 'base64 is read')
    k = m * 6 // 8
    Assert(len(r) == k and (k == 0 or int.from_bytes(r, 'big') == bits >> (m * 6 - k * 8)), 'base64 is read exactly')
    Reach('read')
