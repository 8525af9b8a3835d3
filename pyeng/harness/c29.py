"""The Merkle tree accumulator of the Python contracts."""
from pe import *
from pyscore.lib.icon.mta import MerkleTreeAccumulator


class Tree:
    """The accumulator's tree over all leaves, built on its own."""

    def __init__(self, leaves):
        self.leaves = leaves
        self.roots = []  # (level, first, nodes by level)
        pos, n = 0, len(leaves)
        level = n.bit_length()
        while level >= 0:
            if n >> level & 1:
                nodes = [leaves[pos:pos + (1 << level)]]
                while len(nodes[-1]) > 1:
                    p = nodes[-1]
                    nodes.append([sha3(p[i] + p[i + 1]) for i in range(0, len(p), 2)])
                self.roots.append((level, pos, nodes))
                pos += 1 << level
            level -= 1

    def root(self, level):
        for l, pos, nodes in self.roots:
            if l == level:
                return nodes[-1][0]
        return None

    def witness(self, i):
        for l, pos, nodes in self.roots:
            if pos <= i < pos + (1 << l):
                i -= pos
                w = []
                for k in range(l):
                    w.append(nodes[k][i ^ 1])
                    i >>= 1
                return w


def leaves(n):
    return [sha3(bytes([i]) + b'leaf') for i in range(n)]


def setup(max, off=True):
    n = Choose('n', 1, max)
    offset = Choose('offset', 0, 2) if off else 0
    m = MerkleTreeAccumulator()
    m.offset = offset
    ls = leaves(n)
    for h in ls:
        m.add(h)
    return m, Tree(ls), n, offset


def VH_added():
    m, t, n, offset = setup(9)
    Assert(m.height == offset + n, 'the height counts the added hashes')
    for l in range(5):
        bad, r = Refused(m.get_root, l)
        want = t.root(l)
        if want is None:
            Assert(bad or r is None, 'there is no other root')
        else:
            Assert(not bad and r == want, 'the roots are those of the hashes added')
    i = Choose('i', 0, 8)
    Assume(i < n)
    bad, _ = Refused(m.verify, t.witness(i), t.leaves[i], offset + 1 + i, m.height)
    Assert(not bad, 'an added hash is verified with its witness')
    Reach('verified')


def VH_stored():
    m, t, n, offset = setup(5)
    m2 = MerkleTreeAccumulator(m.to_bytes())
    Assert(m2.height == m.height and m2.offset == m.offset, 'an accumulator is recovered from its bytes')
    ls = list(t.leaves)
    for i in range(Choose('more', 0, 3)):
        h = sha3(bytes([i]) + b'more')
        m2.add(h)
        ls.append(h)
    t = Tree(ls)
    for l in range(5):
        bad, r = Refused(m2.get_root, l)
        want = t.root(l)
        Assert((bad or r is None) if want is None else (not bad and r == want), 'the roots are recovered and go on')
    Reach('stored')


def VH_forged():
    m, t, n, offset = setup(6 if Thorough() else 5)
    k = Choose('wl', 0, 3)
    wit = [Bytes('w%d' % i, 32) for i in range(k)]
    h = Bytes('h', 32)
    height = Int('height', -3, 20)
    # no hash of the tree is that of an unknown shorter input
    bad, _ = Refused(m.verify, wit, h, height, m.height)
    if bad:
        Reach('refused')
        return
    ok = False
    for i in range(n):
        if len(t.witness(i)) == k:
            ok = Or(ok, And(h == t.leaves[i], height == offset + 1 + i))
    Assert(ok, 'only an added hash is verified, at its own height')
    Reach('verified')


def VH_newer():
    """The witness comes from an accumulator that is further on."""
    m, t, n, offset = setup(5)
    more = Choose('more', 1, 4)
    ls = list(t.leaves) + [sha3(bytes([i]) + b'more') for i in range(more)]
    t2 = Tree(ls)
    at = m.height + more
    i = Choose('i', 0, 8)
    Assume(i < n + more)
    bad, _ = Refused(m.verify, t2.witness(i), ls[i], offset + 1 + i, at)
    Assert(bad, 'a newer witness is refused unless allowed')
    m.set_allow_newer_witness(True)
    bad, _ = Refused(m.verify, t2.witness(i), ls[i], offset + 1 + i, at)
    Assert(bad == (i >= n), 'a newer witness is taken exactly for what was added')
    Reach('newer')


def VH_newer_forged():
    m, t, n, offset = setup(4)
    m.set_allow_newer_witness(True)
    k = Choose('wl', 0, 3)
    wit = [Bytes('w%d' % i, 32) for i in range(k)]
    h = Bytes('h', 32)
    height = Int('height', -3, 12)
    bad, _ = Refused(m.verify, wit, h, height, m.height + 1)
    if bad:
        Reach('refused')
        return
    ok = False
    for i in range(n):
        ok = Or(ok, And(h == t.leaves[i], height == offset + 1 + i))
    Assert(ok, 'only an added hash is verified, at its own height')
    Reach('verified')


def VH_cache():
    """Hashes that are kept are verified without a witness."""
    m, t, n, offset = setup(2, False)
    size = Choose('size', 0, 3)
    m.set_cache_size(size)
    more = [sha3(bytes([i]) + b'more') for i in range(Choose('more', 0, 4))]
    for h in more:
        m.add(h)
    back = Choose('back', 0, 5)
    allh = t.leaves + more
    Assume(back < len(allh))
    height = len(allh) - back
    h = Bytes('h', 32)
    bad, _ = Refused(m.verify, [], h, height, m.height - 1)
    kept = more[max(0, len(more) - size):] if size else []
    if not bad:
        Assert(Or(*[h == x for x in kept]), 'without a witness only a hash that is kept is verified')
        Reach('kept')
    else:
        if height > len(allh) - len(kept):
            Assert(Not(h == allh[height - 1]), 'a hash that is kept is verified')
        Reach('refused')


def VH_limited():
    """Only so many roots are kept; older hashes are given up."""
    m = MerkleTreeAccumulator()
    size = Choose('size', 1, 3)
    m.set_roots_size(size)
    n = Choose('n', 1, 9)
    ls = leaves(n)
    for h in ls:
        m.add(h)
    Assert(m.height == n, 'the height counts the added hashes')
    lost = m.offset
    Assert(n - lost <= (1 << size) - 1 and (lost == 0 or n - lost >= 1 << (size - 1)), 'as many hashes are kept as roots allow')
    t = Tree(ls[lost:])
    for l in range(5):
        bad, r = Refused(m.get_root, l)
        want = t.root(l)
        Assert((bad or r is None) if want is None else (not bad and r == want), 'the roots are those of the hashes kept')
    i = Choose('i', 0, 8)
    Assume(i < n)
    h = Bytes('h', 32)
    k = Choose('wl', 0, 2)
    wit = [Bytes('w%d' % j, 32) for j in range(k)] if Choose('any', 0, 1) else (t.witness(i - lost) if i >= lost else [])
    bad, _ = Refused(m.verify, wit, h, i + 1, n)
    if not bad:
        Assert(i >= lost and h == ls[i], 'only a hash that is kept is verified, at its own height')
        Reach('verified')
    bad, _ = Refused(m.verify, t.witness(i - lost) if i >= lost else [], ls[i], i + 1, n)
    Assert(bad == (i < lost), 'exactly the hashes that are kept are verified')
    Reach('limited')
