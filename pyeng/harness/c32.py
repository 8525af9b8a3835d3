"""Messages the message verifier hands to the BMC."""
from pe import *
from iconservice import Address
from harness.bmvlib import *
from harness.c30 import Trie, nibbles, path
from harness.c29 import Tree

VALS = people(0x40, 1)
OTHER = Address(1, b'\x77' * 20)


def way(t, key):
    """The nodes of a trie on the way to an entry."""
    out = []

    def walk(items, ns):
        e = t.node(items)
        if not out or len(e) >= 32:
            out.append(e)
        if len(items) == 1:
            return
        n = 0
        while all(len(x) > n for x, _ in items) and len(set(x[n] for x, _ in items)) == 1:
            n += 1
        if n:
            walk([(x[n:], y) for x, y in items], ns[n:])
        elif ns:
            walk([(x[1:], y) for x, y in items if x and x[0] == ns[0]], ns[1:])

    walk([(nibbles(x), y) for x, y in t.items], nibbles(key))
    return out


def event(addr, sign, indexed, data):
    return spec([addr.to_bytes(), [sign] + indexed, data])


def message(addr, nxt, seq, msg):
    """The event of a BMC: Message(str,int,bytes), two of them indexed."""
    return event(addr, b'Message(str,int,bytes)', [nxt.encode(), num(seq)], [msg])


def trie(values):
    return Trie([(rlp_bytes(num(i)), v) for i, v in enumerate(values)])


def receipt(logs):
    t = trie(logs) if logs else None
    return spec([num(1), BMC.to_bytes(), num(1), num(1), num(1), b'\0', [], None, t.root if t else None]), t


def event_proof(t, i):
    return [num(i), spec(way(t, rlp_bytes(num(i))))]


def receipt_proof(t, i, events):
    return spec([num(i), spec(way(t, rlp_bytes(num(i)))), list(events)])


def block(height, receipts):
    head = header(height, sha3(validators(VALS)), receipts)
    return head, update(head, signed(head, height, VALS), None)


def VH_messages():
    """Any events of the source chain, one after the other."""
    w = deploy(VALS, 10)
    seq = Int('last', 0, 100)
    n = Choose('events', 0, 3)
    split = Choose('split', 0, 1)
    logs, want, strict, sure = [], [], True, True
    at = seq
    for i in range(n):
        kind = Choose('kind', 0, 5 if n < 2 or Thorough() else 3 if n < 3 else 1)
        msg = Bytes('msg', 1) + b'm'
        s = Int('seq', 0, 104)
        if kind == 0:
            logs.append(message(SRC, HERE, s, msg))
            sure = And(sure, s == at + 1)
            strict = And(strict, s == at + 1)
            want.append(msg)
            at = at + 1
        elif kind == 1:
            logs.append(message(OTHER, HERE, s, msg))
        elif kind == 2:
            logs.append(event(SRC, b'Other(str,int,bytes)', [HERE.encode(), num(s)], [msg]))
        elif kind == 4:
            logs.append(message(Address(0, SRC.body), HERE, s, msg))
        elif kind == 5:
            logs.append(event(SRC, b'MessageSent(str,int,bytes)', [HERE.encode(), num(s)], [msg]))
        else:
            logs.append(message(SRC, 'btp://0x3.icon/' + str(BMC), s, msg))
            sure = False
    groups = [logs]
    if split and n > 1:
        groups = [logs[:1], logs[1:]]
    recs = [receipt(g) for g in groups]
    rt = trie([r for r, _ in recs])
    head, up = block(11, rt.root)
    proofs = [receipt_proof(rt, i, [event_proof(t, j) for j in range(len(groups[i]))]) for i, (_, t) in enumerate(recs) if t]
    bad, r = Refused(w.call, BMC, BMV, 'handleRelayMessage', HERE, PREV, seq, relay([up], None, proofs))
    if bad:
        Assert(Not(sure), 'the messages of a block are taken in their order')
        Reach('refused')
        return
    Assert(strict, 'a message is taken only with the next sequence number')
    Assert(len(r) == len(want), 'all messages of the own link, and no others, are taken')
    for a, b in zip(r, want):
        Assert(a == b, 'a message is handed on unchanged')
    st = w.call(OWNER, BMV, 'getStatus')
    Assert(st['height'] == 11, 'the block is counted')
    Assert(st['last_height'] == (11 if want else 10), 'the height of the last message is told')
    Reach('taken%d' % len(want))


def VH_unproven():
    """Events that are not of the block are refused."""
    w = deploy(VALS, 10)
    msg = Bytes('msg', 2)
    ev = message(SRC, HERE, 1, msg)
    other = message(SRC, HERE, 1, b'ok')
    kind = Choose('kind', 0, 5)
    rec, t = receipt([other if kind == 1 else ev])
    rt = trie([rec, receipt([other])[0]])
    root = rt.root
    if kind == 2:
        root = trie([receipt([other])[0]]).root
    if kind == 3:
        root = Bytes('root', 32)
    if kind == 4:
        root = None
    head, up = block(11, root)
    tt = trie([ev]) if kind == 1 else t
    i = Int('index', 0, 2) if kind == 5 else 0
    rp = spec([num(i), spec(way(rt, rlp_bytes(num(0)))), [[num(0), spec(way(tt, rlp_bytes(num(0))))]]])
    bad, r = Refused(w.call, BMC, BMV, 'handleRelayMessage', HERE, PREV, 0, relay([up], None, [rp]))
    proven = True
    if kind == 1:
        proven = msg == b'ok'
    elif kind in (2, 4):
        proven = False
    elif kind == 3:
        proven = root == rt.root
    elif kind == 5:
        proven = Or(i == 0, And(i == 1, msg == b'ok'))
    Assert(Iff(Not(bad), proven), 'only events the block holds are taken')
    if not bad:
        Assert(len(r) == 1 and r[0] == msg, 'the message of the event is taken')
    Reach('refused' if bad else 'taken')


def VH_older():
    """Messages of an older block, with its proof in the accumulator."""
    w = deploy(VALS, 10)
    msg = Bytes('msg', 1)
    rec, t = receipt([message(SRC, HERE, 1, msg)])
    rt = trie([rec])
    n = Choose('blocks', 1, 3)
    k = Choose('which', 0, 2)
    Assume(k < n)
    heads, ups = [], []
    for i in range(n):
        h, u = block(11 + i, rt.root if i == k else b'\x99' * 32)
        heads.append(h)
        ups.append(u)
    w.call(BMC, BMV, 'handleRelayMessage', HERE, PREV, 0, relay(ups))
    tree = Tree([sha3(h) for h in heads])
    forged = Choose('forged', 0, 2)
    head = heads[k]
    if forged == 1:
        head = header(11 + k, sha3(validators(VALS)), rt.root, tag=b'\x01')
    if forged == 2:
        head = header(14 + k, sha3(validators(VALS)), rt.root)
    bp = spec([head, [num(10 + n), tree.witness(k)]])
    rp = receipt_proof(rt, 0, [event_proof(t, 0)])
    more = Choose('more', 0, 2)
    up = []
    if more:
        # a newer block along with the proof of the older one
        rec2, t2 = receipt([message(SRC, HERE, 1, b'newer')])
        rt2 = trie([rec2])
        h, u = block(11 + n, rt2.root)
        up = [u]
        tree = Tree([sha3(x) for x in heads + [h]])
        bp = spec([head, [num(11 + n), tree.witness(k)]])
        if more == 2:
            rp = receipt_proof(rt2, 0, [event_proof(t2, 0)])
    bad, r = Refused(w.call, BMC, BMV, 'handleRelayMessage', HERE, PREV, 0, relay(up, bp, [rp]))
    if more == 2:
        Assert(bad, 'events are proven by the block they are told to be of')
        Reach('mixed')
        return
    if forged:
        Assert(bad, 'a block that was not accepted proves nothing')
        Reach('forged')
        return
    if bad:
        Assert(False, 'an accepted block proves its messages')
    Assert(len(r) == 1 and r[0] == msg, 'the message of the older block is taken')
    st = w.call(OWNER, BMV, 'getStatus')
    Assert(st['last_height'] == 11 + k and st['height'] == 10 + n + more, 'the heights are told')
    Reach('taken')
