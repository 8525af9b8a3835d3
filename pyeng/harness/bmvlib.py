"""What a relay sends to the message verifier, written after its specification."""
import pe
from pe import *
from iconservice import Address, World
from pyscore.bmv.icon.icon import BTPMessageVerifier
from pyscore.lib.icon import base64
from harness.c28 import spec, rlp_bytes

BMC = Address(1, b'\xb1' * 20)
BMV = Address(1, b'\xb2' * 20)
OWNER = Address(0, b'\x0f' * 20)
SRC = Address(1, b'\x5c' * 20)
NET = '0x1.icon'
HERE = 'btp://0x2.icon/' + str(BMC)
PREV = 'btp://%s/%s' % (NET, str(SRC))


class Raw(str):
    """A base64 text, standing for its bytes: base64 itself is decided by C28."""
    def __new__(cls, raw):
        o = str.__new__(cls, 'raw')
        o.raw = raw
        return o


_decode = base64.urlsafe_b64decode


def _b64(s, *a):
    return s.raw if type(s) is Raw else _decode(s, *a)


base64.urlsafe_b64decode = _b64


def text(b):
    return Raw(b) if pe.SYM else base64.urlsafe_b64encode(b)


def num(v):
    """The bytes of a number: two's complement with the fewest bytes."""
    n = 1
    while Or(v < -(1 << (8 * n - 1)), v >= 1 << (8 * n - 1)):
        n += 1
    return v.to_bytes(n, 'big', signed=True)


def header(height, next_hash, receipts=None, tag=b'\x00'):
    result = b'' if receipts is None else spec([b'\x51' * 32, None, receipts])
    return spec([num(2), num(height), num(7), b'\0' + b'\x0a' * 20, b'\x11' * 32, b'\x12' * 32, next_hash, None, b'\x13' * 32, tag, result])


def vote_message(height, rnd, block, parts, stamp):
    return spec([num(height), num(rnd), num(1), block, [num(parts[0]), parts[1]], num(stamp)])


def votes(rnd, parts, items):
    return spec([num(rnd), [num(parts[0]), parts[1]], [[num(t), s] for t, s in items]])


def validators(addrs):
    return spec([a.to_bytes() for a in addrs])


def update(head, vote, nexts):
    return spec([head, vote, nexts])


def relay(updates, proof=None, receipts=()):
    return text(spec([list(updates), proof, list(receipts)]))


def deploy(addrs, offset):
    w = World()
    w.deploy(BMV, BTPMessageVerifier, OWNER, BMC, NET, ','.join(str(a) for a in addrs), offset)
    return w


def people(tag, n):
    return [Address(0, bytes([tag + i]) * 20) for i in range(n)]


def signed(head, height, who, tag='s'):
    """Votes for a block by exactly the given validators."""
    items = []
    parts = (1, b'\x31' * 32)
    for i, a in enumerate(who):
        sig = bytes([i]) + b'\x21' * 64
        h = sha3(vote_message(height, 0, sha3(head), parts, 9))
        Assume(uf('signer', [h, sig], 20) == a.body)
        items.append((9, sig))
    return votes(0, parts, items)
