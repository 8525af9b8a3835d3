"""Block updates the message verifier accepts."""
from pe import *
from iconservice import Address
from harness.bmvlib import *


class Chain:
    """What the verifier must believe."""

    def __init__(self, vals, offset):
        self.vals, self.height = vals, offset
        self.hash = sha3(validators(vals))


def check(c, height, head, rnd, parts, items):
    """The votes are of more than two thirds of the validators, each once."""
    ok = height == c.height + 1
    who = []
    for t, s in items:
        a = uf('signer', [sha3(vote_message(height, rnd, sha3(head), parts, t)), s], 20)
        known = False
        for v in c.vals:
            known = Or(known, a == v.body)
        ok = And(ok, known)
        for b in who:
            ok = And(ok, Not(a == b))
        who.append(a)
    return And(ok, 3 * len(items) > 2 * len(c.vals))


def VH_votes():
    """One update with any votes and any next validators."""
    n = Choose('n', 1, 5 if Thorough() else 4)
    vals, others = people(0x40, n), people(0x60, 2)
    c = Chain(vals, 10)
    w = deploy(vals, 10)
    height = Int('height', 0, 100)
    k = Choose('votes', 0, n + 1)
    if n > 3 and not Thorough():
        Assume(k == 3)
    kind = Choose('kind', 0, 2) if n == 1 or Thorough() else 0
    nh = [c.hash, sha3(validators(others)), Bytes('nh', 32)][kind]
    head = header(height, nh)
    nk = Choose('next', 0, 2) if n == 1 or Thorough() else 0
    nb = [None, validators(others), validators(vals)][nk]
    rnd = Int('round', 0, 100)
    parts = (Int('parts', 0, 100), b'\x31' * 32)
    items = [(Int('stamp', 0, 100), Bytes('sig', 1) + b'\x21' * 64) for _ in range(k)]
    vote = votes(rnd, parts, items)
    bad, r = Refused(w.call, BMC, BMV, 'handleRelayMessage', HERE, PREV, 0, relay([update(head, vote, nb)]))
    ok = check(c, height, head, rnd, parts, items)
    changed = Not(nh == c.hash)
    given = nb is not None and And(changed, nh == sha3(nb))
    ok = And(ok, Or(Not(changed), given))
    if bad:
        Assert(Not(ok), 'a block that more than two thirds of the validators voted for is accepted')
        Assert(w.call(OWNER, BMV, 'getStatus')['height'] == 10, 'a refused block changes nothing')
        Reach('refused')
        return
    Assert(ok, 'a block is accepted with the votes of more than two thirds of the validators, and its own next validators, only')
    Assert(r == [], 'blocks alone hold no messages')
    st = w.call(OWNER, BMV, 'getStatus')
    Assert(st['height'] == 11, 'an accepted block is the next one')
    Assert(st['offset'] == 10 and st['last_height'] == 10, 'blocks without messages leave the offset and the height of messages')
    now = w.call(OWNER, BMV, 'validators')['addresses']
    if changed:
        Assert(And(nb is not None, sha3(nb) == nh), 'next validators are those of the block')
        want = others if nk == 1 else vals
        Reach('changed')
    else:
        want = vals
        Reach('kept')
    Assert(len(now) == len(want), 'the validators are those of the last block')
    for a, b in zip(now, want):
        Assert(a == b, 'the validators are those of the last block')


def VH_sequence():
    """Several blocks in one or more messages; the validators may change on the way."""
    vals, others = people(0x40, Choose('n', 1, 3)), people(0x60, 2)
    c = Chain(vals, 10)
    w = deploy(vals, 10)
    m = Choose('blocks', 1, 3)
    split = Choose('split', 0, m - 1)
    change = Choose('change', 0, m)
    ups, log = [], []
    odd, wrong = Choose('odd', 0, m), Choose('wrong', 0, m)
    Assume(odd == m or wrong == m)
    for j in range(m):
        nxt = others if change == j else c.vals
        height = Int('height', 9, 14) if odd == j else c.height + 1
        head = header(height, sha3(validators(nxt)), tag=bytes([j]))
        signers = c.vals
        if wrong == j:
            signers = others if c.vals is vals else vals
        ups.append(update(head, signed(head, height, signers), validators(nxt) if nxt is not c.vals else None))
        ok = And(height == c.height + 1, signers is c.vals)
        log.append((j, ok, nxt))
        c.height += 1
        c.vals = nxt
        if j == split or j == m - 1:
            before = w.call(OWNER, BMV, 'getStatus')['height']
            bad, r = Refused(w.call, BMC, BMV, 'handleRelayMessage', HERE, PREV, 0, relay(ups))
            good = True
            for _, o, _ in log:
                good = And(good, o)
            st = w.call(OWNER, BMV, 'getStatus')
            if bad:
                Assert(Not(good), 'the next blocks are accepted')
                Assert(st['height'] == before, 'refused blocks change nothing')
                Reach('refused')
                return
            Assert(good, 'blocks are accepted in order and by the validators in office only')
            Assert(st['height'] == c.height, 'accepted blocks are counted')
            now = w.call(OWNER, BMV, 'validators')['addresses']
            Assert(len(now) == len(c.vals) and all(a == b for a, b in zip(now, c.vals)), 'the validators in office are those of the last block')
            ups, log = [], []
    Reach('accepted')


def VH_access():
    """Only the own BMC may bring messages, of the own network's link."""
    vals = people(0x40, 1)
    w = deploy(vals, 10)
    head = header(11, sha3(validators(vals)))
    msg = relay([update(head, signed(head, 11, vals), None)])
    caller = [BMC, OWNER, SRC, Address(1, Bytes('caller', 20))][Choose('who', 0, 3)]
    here = [HERE, 'btp://0x2.icon/' + str(SRC), 'btp://0x2.icon/' + str(Address(0, BMC.body))][Choose('here', 0, 2)]
    net = [NET, '0x1.eth', '', Name('net', 3) + '.icon'][Choose('net', 0, 3)]
    bad, r = Refused(w.call, caller, BMV, 'handleRelayMessage', here, 'btp://%s/%s' % (net, str(SRC)) if isinstance(net, type('')) and net in (NET, '0x1.eth', '') else 'btp://' + net + '/' + str(SRC), 0, msg)
    ok = And(caller == BMC, here == HERE, net == NET)
    Assert(Iff(Not(bad), ok), 'messages are taken from the own BMC and for the own link only')
    st = w.call(OWNER, BMV, 'getStatus')
    Assert(st['height'] == (10 if bad else 11), 'a refused message changes nothing')
    Assert(w.call(OWNER, BMV, 'bmc') == BMC and w.call(OWNER, BMV, 'netAddress') == NET, 'the settings are told')
    Reach('refused' if bad else 'taken')


def VH_empty():
    """A message without blocks is no message."""
    w = deploy(people(0x40, 1), 10)
    bad, r = Refused(w.call, BMC, BMV, 'handleRelayMessage', HERE, PREV, 0, relay([]))
    Assert(bad, 'a message without a block is refused')
    Reach('refused')
