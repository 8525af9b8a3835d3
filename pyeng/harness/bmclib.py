"""A message center with links, services and verifiers played by the harness."""
from pe import *
from iconservice import Address, World, IconScoreException
from pyscore.bmc.bmc import BTPMessageCenter
from pyscore.lib import BTPException
from harness.c28 import spec
from harness.bmvlib import num

BMC = Address(1, b'\xb1' * 20)
OWNER = Address(0, b'\x0f' * 20)
RELAY = Address(0, b'\x4e' * 20)
OPERATOR = Address(0, b'\x4f' * 20)
ME = 'btp://0x1.me/' + str(BMC)


def contract(tag):
    return Address(1, bytes([tag]) * 20)


def btp(net, tag):
    return 'btp://%s/%s' % (net, str(contract(tag)))


class Verifier:
    """Hands on the messages it is told to."""

    def __init__(self):
        self.msgs, self.asked = [], []
        self.height, self.last = 10, 10
        self.after = None

    def getStatus(self):
        return {'height': self.height, 'offset': 0, 'last_height': self.last}

    def handleRelayMessage(self, bmc, prev, seq, msg):
        self.asked.append((bmc, prev, seq, msg))
        if self.after is not None:
            self.height, self.last = self.after
        return list(self.msgs)


class Service:
    def __init__(self):
        self.calls = []
        self.fail = None

    def handleBTPMessage(self, frm, svc, sn, msg):
        self.calls.append(('message', frm, svc, sn, msg))
        if self.fail is not None:
            raise self.fail

    def handleBTPError(self, src, svc, sn, code, msg):
        self.calls.append(('error', src, svc, sn, code, msg))
        if self.fail is not None:
            raise self.fail


def message(src, dst, svc, sn, payload):
    return spec([src.encode(), dst.encode(), svc.encode(), num(sn), payload])


def center(links, services=(), relay=True):
    """links: (net, tag); services: (name, tag)."""
    w = World()
    w.deploy(BMC, BTPMessageCenter, OWNER, '0x1.me')
    vs, ss = {}, {}
    for i, (net, tag) in enumerate(links):
        vs[net] = Verifier()
        va = contract(0xe0 + i)
        w.external(va, vs[net])
        w.call(OWNER, BMC, 'addVerifier', net, va)
        w.call(OWNER, BMC, 'addLink', btp(net, tag))
    for name, tag in services:
        ss[name] = Service()
        w.external(contract(tag), ss[name])
        w.call(OWNER, BMC, 'addService', name, contract(tag))
    if relay:
        w.call(OWNER, BMC, 'addRelayer', OPERATOR, 'op')
        for net, tag in links:
            w.call(OPERATOR, BMC, 'addRelay', btp(net, tag), RELAY)
    return w, vs, ss
