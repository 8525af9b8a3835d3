"""Merkle Patricia trie proofs in the Python contracts."""
from pe import *
from pyscore.lib.icon.mpt import MerklePatriciaTree
from harness.c28 import spec, rlp_bytes, header


def nibbles(k):
    out = []
    for b in k:
        out += [b >> 4, b & 15]
    return out


def path(ns, leaf):
    """The header of a leaf or extension."""
    f = 2 if leaf else 0
    if len(ns) % 2:
        out, ns = [(f + 1) << 4 | ns[0]], ns[1:]
    else:
        out = [f << 4]
    for i in range(0, len(ns), 2):
        out.append(ns[i] << 4 | ns[i + 1])
    return bytes(out)


def seq(parts):
    out = b''
    for p in parts:
        out = out + p
    return header(0xc0, len(out)) + out


class Trie:
    """A trie built after its specification."""

    def __init__(self, items):
        self.nodes = {}
        self.order = []
        self.items = items
        e = self.node([(nibbles(k), v) for k, v in items])
        self.order.append(e)
        self.root = sha3(e)

    def node(self, items):
        if len(items) == 1:
            return seq([rlp_bytes(path(items[0][0], True)), rlp_bytes(items[0][1])])
        n = 0
        while all(len(k) > n for k, _ in items) and len(set(k[n] for k, _ in items)) == 1:
            n += 1
        if n:
            return seq([rlp_bytes(path(items[0][0][:n], False)), self.link(self.node([(k[n:], v) for k, v in items]))])
        parts = []
        for i in range(16):
            sub = [(k[1:], v) for k, v in items if k and k[0] == i]
            parts.append(self.link(self.node(sub)) if sub else b'\x80')
        value = [v for k, v in items if not k]
        parts.append(rlp_bytes(value[0]) if value else b'\x80')
        return seq(parts)

    def link(self, e):
        if len(e) < 32:
            return e
        self.order.append(e)
        return rlp_bytes(sha3(e))


KEYS = [
    [b'\x01'],
    [b'\x01', b'\x02'],
    [b'\x01', b'\x12'],
    [b'\x00', b'\x01', b'\x81\x80'],
    [b'\x12', b'\x12\x34'],
    [b'\x12\x34\x56', b'\x12\x34\x57', b'\x12\x84'],
    [b'\x12\x34'],
]


def trie(big):
    ks = KEYS[Choose('keys', 0, len(KEYS) - 1)]
    size = 33 if big else Choose('size', 1, 2)
    return Trie([(k, Bytes('v', 2) + b'\x77' * (size - 2) if size > 2 else Bytes('v', size)) for k in ks])


def VH_complete():
    """The nodes on the way to an entry prove it."""
    t = trie(Choose('big', 0, 1) == 1)
    i = Choose('i', 0, 2)
    Assume(i < len(t.items))
    k, v = t.items[i]
    done = []

    def walk(items, ns):
        e = t.node(items)
        if not done or len(e) >= 32:
            done.append(e)
        if len(items) == 1:
            return
        n = 0
        while all(len(x) > n for x, _ in items) and len(set(x[n] for x, _ in items)) == 1:
            n += 1
        if n:
            walk([(x[n:], y) for x, y in items], ns[n:])
        elif ns:
            walk([(x[1:], y) for x, y in items if x and x[0] == ns[0]], ns[1:])

    walk([(nibbles(x), y) for x, y in t.items], nibbles(k))
    bad, r = Refused(MerklePatriciaTree.prove, t.root, k, list(done))
    Assert(not bad, 'an entry is proven by the nodes on its way')
    Assert(r == v, 'the value of an entry is told')
    Reach('proven')


def VH_sound():
    """Whatever the nodes are, only entries are proven."""
    t = trie(True)
    key = Bytes('key', Choose('kl', 0, 3))
    lens = sorted(set(len(e) for e in t.order))
    n = Choose('n', 0, 3) if Thorough() else (1, 3)[Choose('n', 0, 1)]
    nodes = [Bytes('p%d' % i, lens[Choose('l%d' % i, 0, len(lens) - 1)]) for i in range(n)]
    bad, r = Refused(MerklePatriciaTree.prove, t.root, key, nodes)
    if bad:
        Reach('refused')
        return
    ok = False
    for k, v in t.items:
        if len(k) == len(key):
            ok = Or(ok, And(key == k, r == v))
    Assert(ok, 'only an entry is proven, with its value')
    Reach('proven')
