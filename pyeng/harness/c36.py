"""Who may relay to the message center, and when."""
from pe import *
from harness.bmclib import *

A, B = btp('0xa.n', 0xa1), btp('0xb.n', 0xb2)
OPS = [Address(0, b'\x01' * 20), Address(0, b'\x02' * 20), Address(0, b'\x03' * 20)]
RELAYS = [Address(0, b'\x11' * 20), Address(0, b'\x12' * 20), Address(0, b'\x13' * 20)]


def start(n):
    w, vs, ss = center([('0xa.n', 0xa1), ('0xb.n', 0xb2)], relay=False)
    for o in OPS:
        w.call(OWNER, BMC, 'addRelayer', o, 'op')
    for i in range(n):
        w.call(OPS[i], BMC, 'addRelay', A, RELAYS[i])
    return w, vs


def attempt(w, who, link=A):
    """Whether who may relay now; the state stays as it was."""
    save = dict((k, d.snapshot()) for k, d in w.dbs.items())
    ev = list(w.events)
    bad, r = Refused(w.call, who, BMC, 'handleRelayMessage', link, 'm')
    for k in save:
        w.dbs[k].restore(save[k])
    w.events = ev
    return not bad


def VH_members():
    """Relays are registered and removed by their operators."""
    n = Choose('n', 0, 1)
    w, vs = start(n)
    who = Address(0, bytes([0x11 + Choose('body', 0, 1) * 3]) * 20)
    here = RELAYS[:n]     # relays of A, in order
    held = dict((i, RELAYS[i]) for i in range(n))     # operator -> its relay of A
    for i in range(3 if Thorough() else 2):
        op = Choose('op', 0, 3)
        o, x = Choose('o', 0, 1), RELAYS[Choose('x', 0, 1)]
        if op == 0:
            bad, r = Refused(w.call, OPS[o], BMC, 'addRelay', A, x)
            Assert(bad == (o in held or x in here), 'an operator registers one relay of a link, which is not there yet')
            if not bad:
                held[o] = x
                here.append(x)
        elif op == 1:
            bad, r = Refused(w.call, OPS[o], BMC, 'removeRelay', A, x)
            Assert(bad == (held.get(o) != x or x not in here), 'an operator can remove its own relay')
            if not bad:
                held.pop(o)
                here = [y for y in here if y != x]
        elif op == 2:
            Assume(o == 0)
            w.call(OWNER, BMC, 'removeLink', A)
            Assert(not attempt(w, x), 'nothing is relayed over a removed link')
            w.call(OWNER, BMC, 'addLink', A)
            here = []
            Reach('relinked')
        else:
            Assume(o == 0)
            bad, r = Refused(w.call, who, BMC, 'addRelay', A, x)
            Assert(bad, 'only an operator registers relays')
    got = w.call(OWNER, BMC, 'getRelays', A)
    Assert(len(got) == len(here) and all(g == str(y) for g, y in zip(got, here)), 'the relays of a link are told')
    Assert(w.call(OWNER, BMC, 'getRelays', B) == [], 'relays of a link are not those of another')
    for x in RELAYS[:2] + [who]:
        Assert(attempt(w, x) == (x in here), 'registered relays, and no others, may relay')
        Assert(not attempt(w, x, B), 'a relay of a link may not relay over another')
    anyone = Address(0, Bytes('anyone', 20))
    ok = False
    for x in here:
        ok = Or(ok, anyone == x)
    Assert(Iff(attempt(w, anyone), ok), 'registered relays, and no others, may relay')
    Reach('members%d' % len(here))


def up(a, b):
    """a / b, rounded up."""
    return -((-a) // b)


class Turn:
    def __init__(self, n, term, src, dst, delay):
        self.n, self.term, self.src, self.dst, self.delay = n, term, src, dst, delay


def VH_rotation():
    """The relays take turns, by block height."""
    if Thorough():
        n, dst = Choose('n', 1, 3), [500, 1000, 2000][Choose('interval', 0, 2)]
        agg, delay = [(1, 3), (2, 1), (2, 3), (1, 1)][Choose('limits', 0, 3)]
    else:
        n, dst, agg, delay = [(2, 2000, 1, 3), (3, 500, 2, 1), (3, 1000, 2, 3)][Choose('setting', 0, 2)]
    w, vs = start(n)
    v = vs['0xa.n']
    w.height = 100
    v.height = v.last = 50
    w.call(OWNER, BMC, 'setLink', A, dst, agg, delay)
    term = up(agg * dst, 1000)
    idx, rotate, rx, rx_src = 0, 100 + term, 100, 50
    st = w.call(OWNER, BMC, 'getStatus', A)
    Assert(st['rotate_term'] == term and st['rotate_height'] == rotate and st['relay_idx'] == 0, 'the terms are those of the link')
    h = 100
    for i in range(2):
        h = h + Int('later', 0, 12 if Thorough() else 5)
        w.height = h
        got = Choose('msgs', 0, 1)
        v.msgs = [b''] * got
        last = v.last
        if got:
            last = v.last + Int('ahead', 0, 8 if Thorough() else 3)
        v.after = (v.height, last)
        if got:
            guess = rx + up((last - rx_src) * dst, 1000) - 1
            if guess > h:
                guess = h
            count = up(guess - rotate, term)
            if count < 0:
                count = 0
            base = rotate + (count - 1) * term
            skip = up(h - guess, delay) - 1
            if skip > 0:
                count, base = count + skip, h
        else:
            count = up(h - rotate, term)
            base = rotate + (count - 1) * term
        nidx, nrot = idx, rotate
        if count > 0:
            nidx, nrot = (idx + count) % n, base + term
        if i == 1:
            k = Choose('try', 0, 2)
            Assume(k < n)
            keep = (v.height, v.last)
            Assert(Iff(attempt(w, RELAYS[k]), nidx == k), 'the relay whose turn it is, and no other, may relay')
            v.height, v.last = keep
        who = 0
        while nidx != who:
            who += 1
        Assert(who < n and not Refused(w.call, RELAYS[who], BMC, 'handleRelayMessage', A, 'm')[0], 'one relay has its turn at any time')
        idx, rotate = who, nrot
        if got:
            rx, rx_src = h, last
        st = w.call(OWNER, BMC, 'getStatus', A)
        Assert(And(st['relay_idx'] == nidx, st['rotate_height'] == nrot), 'the turn is told')
    Reach('rotated')


def VH_turn_removed():
    """A relay is removed while the relays take turns: the link goes on."""
    n = Choose('n', 2, 3)
    w, vs = start(n)
    v = vs['0xa.n']
    w.height = 100
    w.call(OWNER, BMC, 'setLink', A, 1000, 2, 3)
    w.height = 100 + Int('h', 0, 9)
    ok = [k for k in range(n) if attempt(w, RELAYS[k])]
    Assert(len(ok) == 1, 'one relay has its turn at any time')
    w.call(RELAYS[ok[0]], BMC, 'handleRelayMessage', A, 'm')
    k = Choose('gone', 0, 2)
    Assume(k < n)
    w.call(OPS[k], BMC, 'removeRelay', A, RELAYS[k])
    w.height = w.height + Int('later', 0, 9)
    ok = [j for j in range(n) if attempt(w, RELAYS[j])]
    Assert(len(ok) == 1 and ok[0] != k, 'one relay has its turn at any time')
    Reach('goes on')


def VH_next():
    """Relays that change at once, at a told height."""
    n = Choose('n', 0, 2)
    w, vs = start(n)
    term = Choose('term', 1, 2)
    w.height = 10
    w.call(OWNER, BMC, 'nextRelays', A, term)
    want = [RELAYS[i] for i in range(n)]
    for i in range(2):
        o, x = Choose('o', 0, 2), RELAYS[Choose('x', 0, 2)]
        bad, r = Refused(w.call, OPS[o], BMC, 'addRelay' if Choose('op', 0, 1) == 0 else 'removeRelay', A, x)
    now = w.call(OWNER, BMC, 'getRelays', A)
    Assert([str(x) for x in now] == [str(x) for x in want], 'relays do not change before the time')
    later = [str(x) for x in w.call(OWNER, BMC, 'getNextRelays', A)]
    w.height = 20
    w.call(OWNER, BMC, 'nextRelays', A, term)
    now = [str(x) for x in w.call(OWNER, BMC, 'getRelays', A)]
    Assert(sorted(now) == sorted(later), 'the next relays are told before')
    for x in RELAYS:
        Assert(attempt(w, x) == (str(x) in now), 'registered relays, and no others, may relay')
    Reach('next')
