"""What the message center does with verified messages."""
from pe import *
from pyscore.bmc.message import BTPMessage, ErrorMessage
from harness.bmclib import *

A, B, C, D = btp('0xa.n', 0xa1), btp('0xb.n', 0xb2), btp('0xc.n', 0xc3), btp('0xd.n', 0xd4)
FAR = btp('0xf.n', 0xf6)


def setup():
    w, vs, ss = center([('0xa.n', 0xa1), ('0xb.n', 0xb2)], [('svc', 0x51)])
    w.call(OWNER, BMC, 'addRoute', C, B)
    return w, vs, ss


def seqs(w):
    return dict((l, w.call(OWNER, BMC, 'getStatus', l)) for l in (A, B))


def VH_dispatch():
    """Any verified messages, one after the other."""
    w, vs, ss = setup()
    before = seqs(w)
    w.events.clear()
    svc = ss['svc']
    n = Choose('n', 1, 2)
    fail = Choose('fail', 0, 2)
    code = Int('code', 0, 100)
    svc.fail = [None, BTPException('failed', code), ValueError('broken')][fail]
    msgs, calls, events = [], [], []
    for i in range(n):
        kind = Choose('kind', 0, 6)
        sn = Int('sn', -100, 100)
        pay = Bytes('pay', 1) + b'p'
        src = FAR if Choose('far', 0, 1) else A
        isneg = False
        if kind in (0, 1) and sn < 0:
            isneg = True
            pay = spec([num(7), b'why'])
        name = 'svc' if kind != 1 else 'nope'
        dst = [ME, ME, B, C, btp('0x9.n', 9), btp('0x1.me', 0x99), ''][kind]
        if kind == 6:
            msgs.append([b'\xc0', b'', b'\x01\x02', spec([b'no address', b'x', b'svc', num(1), b''])][Choose('garbage', 0, 3)])
            continue
        m = message(src, dst, name, sn, pay)
        msgs.append(m)
        if kind in (2, 3):
            events.append(('forward', B, m))
        elif kind in (4, 5):
            if sn > 0:
                events.append(('reply', src, name, sn, 19, None))
        elif kind == 1:
            if isneg:
                events.append(('dropped',))
            elif sn > 0:
                events.append(('reply', src, name, sn, 16, None))
        elif isneg:
            calls.append(('error', src, 'svc', -sn, 7, 'why'))
            if fail:
                events.append(('dropped',))
        else:
            calls.append(('message', src[6:11], 'svc', sn, pay))
            if fail and sn > 0:
                events.append(('reply', src, name, sn, code if fail == 1 else None, 'failed' if fail == 1 else None))
    vs['0xa.n'].msgs = msgs
    bad, r = Refused(w.call, RELAY, BMC, 'handleRelayMessage', A, 'relayed')
    Assert(not bad, 'no message can block the link')
    asked = vs['0xa.n'].asked
    Assert(len(asked) == 1 and asked[0][0] == ME and asked[0][1] == A and asked[0][3] == 'relayed', 'the verifier of the link gets the message')
    Assert(asked[0][2] == before[A]['rx_seq'], 'the verifier is told the last sequence number')
    Assert(len(vs['0xb.n'].asked) == 0, 'other verifiers are not asked')
    Assert(len(svc.calls) == len(calls), 'each message is delivered to its service once')
    for a, b in zip(svc.calls, calls):
        Assert(a[0] == b[0] and len(a) == len(b), 'messages and errors are told apart')
        for x, y in zip(a, b):
            Assert(x == y, 'a service gets the message unchanged')
    after = seqs(w)
    Assert(after[A]['rx_seq'] == before[A]['rx_seq'] + n and after[B]['rx_seq'] == before[B]['rx_seq'], 'the received messages are counted')
    tx = {A: before[A]['tx_seq'], B: before[B]['tx_seq']}
    evs = w.events
    Assert(len(evs) == len(events), 'a message is sent on or answered once')
    for (addr, name, args), want in zip(evs, events):
        if want[0] == 'dropped':
            Assert(name == 'ErrorOnBTPError', 'an error that cannot be delivered is told')
            Reach('dropped')
            continue
        Assert(name == 'Message', 'messages are sent by events')
        to = want[1] if want[0] == 'forward' else A
        Assert(args[0] == to, 'a message is sent to the next center on its way')
        tx[to] += 1
        Assert(args[1] == tx[to], 'sent messages are numbered without gaps')
        if want[0] == 'forward':
            Assert(args[2] == want[2], 'a message is forwarded unchanged')
            Reach('forward')
            continue
        m = BTPMessage.from_bytes(args[2])
        Assert(str(m.src) == ME and str(m.dst) == want[1] and m.svc == want[2], 'an error is answered to the source')
        Assert(m.sn == -want[3], 'an error is answered with the negated number')
        e = ErrorMessage.from_bytes(m.payload)
        if want[4] is not None:
            Assert(e.code == want[4], 'the code of the error is told')
        if want[5] is not None:
            Assert(e.msg == want[5], 'the text of the error is told')
        Reach('reply')
    for l in (A, B):
        Assert(after[l]['tx_seq'] == tx[l], 'the sent messages are counted')
    rs = after[A]['relays']
    Assert(len(rs) == 1 and rs[0]['msg_count'] == before[A]['relays'][0]['msg_count'] + n, 'the messages of a relay are counted')
    Reach('done')


def sent(w, i, to, seq):
    addr, name, args = w.events[i]
    Assert(name == 'Message' and args[0] == to, 'a message is sent to the next center on its way')
    Assert(args[1] == seq, 'sent messages are numbered without gaps')
    return BTPMessage.from_bytes(args[2])


def VH_send():
    """A service sends messages to all kinds of places."""
    w, vs, ss = setup()
    gone = Choose('gone', 0, 1)
    if gone:
        w.call(OWNER, BMC, 'removeLink', B)
    else:
        vs['0xb.n'].msgs = [message(B, ME, '_event', 0, spec([b'Link', [B.encode(), D.encode()]]))]
        w.call(RELAY, BMC, 'handleRelayMessage', B, 'x')
        if Choose('unlink', 0, 1):
            vs['0xb.n'].msgs = [message(B, ME, '_event', 0, spec([b'Unlink', [B.encode(), D.encode()]]))]
            w.call(RELAY, BMC, 'handleRelayMessage', B, 'x')
            d = None
        else:
            d = B
    if gone:
        d = None
    before = w.call(OWNER, BMC, 'getStatus', A)['tx_seq']
    beforeb = None if gone else w.call(OWNER, BMC, 'getStatus', B)['tx_seq']
    w.events.clear()
    k = Choose('to', 0, 5)
    net, dst, nxt = [('0xa.n', A, A), ('0xb.n', B, None if gone else B), ('0xc.n', C, None if gone else B), ('0xd.n', D, d),
                     ('0x9.n', None, None), ('0x1.me', None, None)][k]
    sn, pay = Int('sn', -2, 100), Bytes('pay', 2)
    bad, r = Refused(w.call, contract(0x51), BMC, 'sendMessage', net, 'svc', sn, pay)
    if bad:
        Assert(Or(nxt is None, sn < 0), 'a message to a reachable network is sent')
        Assert(isinstance(r, IconScoreException), 'what is not reachable is refused with its error')
        Assert(len(w.events) == 0, 'a refused message is not sent')
        Reach('refused')
        return
    Assert(And(nxt is not None, sn >= 0), 'a message without a way or with a negative number is refused')
    Assert(len(w.events) == 1, 'a message is sent once')
    m = sent(w, 0, nxt, (before if nxt == A else beforeb) + 1)
    Assert(str(m.src) == ME and m.svc == 'svc' and m.sn == sn and m.payload == pay, 'a message is sent unchanged')
    Assert(str(m.dst) == dst, 'a message is addressed to the center of its network')
    Assert(w.call(OWNER, BMC, 'getStatus', nxt)['tx_seq'] == (before if nxt == A else beforeb) + 1, 'the sent messages are counted')
    Reach('sent%d' % k)


def VH_forward():
    """A message to a network whose way is gone is answered, and another one forwarded."""
    w, vs, ss = setup()
    w.call(OWNER, BMC, 'removeLink', B)
    before = w.call(OWNER, BMC, 'getStatus', A)
    w.events.clear()
    sn = Int('sn', -100, 100)
    vs['0xa.n'].msgs = [message(A, C, 'svc', sn, b'x'), message(A, ME, 'svc', 5, b'y')]
    bad, r = Refused(w.call, RELAY, BMC, 'handleRelayMessage', A, 'x')
    Assert(not bad, 'no message can block the link')
    Assert(len(ss['svc'].calls) == 1, 'the next message is delivered')
    st = w.call(OWNER, BMC, 'getStatus', A)
    Assert(st['rx_seq'] == before['rx_seq'] + 2, 'the received messages are counted')
    if sn > 0:
        Assert(len(w.events) == 1, 'a message without a way is answered')
        m = sent(w, 0, A, before['tx_seq'] + 1)
        Assert(m.sn == -sn and str(m.dst) == A, 'an error is answered to the source')
        Reach('answered')
    else:
        Assert(len(w.events) == 0, 'only a message with a number is answered')
        Reach('silent')


def VH_internal():
    """Internal messages, well formed or not."""
    w, vs, ss = setup()
    k = Choose('kind', 0, 8)
    h, s = Int('height', 0, 100), Int('seq', 0, 100)
    svc, pay = [('_event', spec([b'Link', [A.encode(), D.encode()]])),
                ('_event', spec([b'Unlink', [A.encode(), D.encode()]])),
                ('_event', spec([b'Other', [A.encode()]])),
                ('_event', spec([b'Link', [FAR.encode(), D.encode()]])),
                ('_event', Bytes('bad', 2)),
                ('_sack', spec([num(h), num(s)])),
                ('_sack', Bytes('bad', 1)),
                ('_event', spec([b'Link', [b'x']])),
                ('other', Bytes('bad', 2))][k]
    vs['0xa.n'].msgs = [message(A, ME, svc, -1 if k == 8 else 0, pay), message(A, ME, 'svc', 1, b'p')]
    before = w.call(OWNER, BMC, 'getStatus', A)
    bad, r = Refused(w.call, RELAY, BMC, 'handleRelayMessage', A, 'x')
    Assert(not bad, 'no message can block the link')
    st = w.call(OWNER, BMC, 'getStatus', A)
    Assert(st['rx_seq'] == before['rx_seq'] + 2 and len(ss['svc'].calls) == 1, 'the next message is delivered')
    bad, r = Refused(w.call, contract(0x51), BMC, 'sendMessage', '0xd.n', 'svc', 1, b'')
    Assert(bad == (k != 0), 'a network is reachable if a linked center has linked it')
    Reach('internal')


def VH_links():
    """Linked centers are told about links, so that they know the ways."""
    w, vs, ss = center([('0xa.n', 0xa1), ('0xb.n', 0xb2)])
    w.call(OWNER, BMC, 'addVerifier', '0xc.n', contract(0xe7))
    w.external(contract(0xe7), Verifier())
    L = [A, B]
    for i in range(2):
        t = [A, B, C][Choose('t', 0, 2)]
        tx = dict((l, w.call(OWNER, BMC, 'getStatus', l)['tx_seq']) for l in L)
        w.events.clear()
        if t in L:
            name = b'Unlink'
            w.call(OWNER, BMC, 'removeLink', t)
            need = [l for l in L if l != t]
            L = need
        else:
            name = b'Link'
            w.call(OWNER, BMC, 'addLink', t)
            need = list(L)
            L = L + [t]
        got = []
        for _, ev, args in w.events:
            Assert(ev == 'Message', 'linked centers are told by messages')
            m = BTPMessage.from_bytes(args[2])
            Assert(str(m.src) == ME and str(m.dst) == args[0] and m.svc == '_event' and m.sn == 0, 'linked centers are told by messages')
            Assert(m.payload == spec([name, [ME.encode(), t.encode()]]), 'it is told which link was added or removed')
            Assert(args[1] == tx.get(args[0], 0) + 1, 'sent messages are numbered without gaps')
            Assert(args[0] not in got, 'it is told once')
            got.append(args[0])
        for l in need:
            Assert(l in got, 'every linked center is told')
            Assert(w.call(OWNER, BMC, 'getStatus', l)['tx_seq'] == tx[l] + 1, 'the sent messages are counted')
        for l in got:
            Assert(l == t or l in need, 'only linked centers are told')
        Reach('linked' if name == b'Link' else 'unlinked')
