"""Addresses of contracts and networks as the contracts read and write them."""
from pe import *
from pyscore.lib import BTPAddress, BTPException


def plain(s):
    """No separators in a text."""
    for c in s:
        if c in ':/':
            return False
    return True


def VH_parts():
    """An address is its protocol, network and contract."""
    p = ['btp', '', Str('p', 2)][Choose('proto', 0, 2)]
    net = ['0x1.icon', 'icon', Str('net', 3), Str('n', 1) + '.' + Str('m', 1), Str('a', 1) + '.b.' + Str('c', 1)][Choose('kind', 0, 4)]
    k = Choose('clen', 0, 3)
    con = Str('con', k)
    Assume(plain(p) and plain(net) and plain(con))
    text = p + '://' + net + '/' + con
    try:
        a = BTPAddress.from_string(text)
    except BTPException:
        Assert(net[0] == '.', 'a well-formed address is read')
        Reach('refused')
        return
    at = -1
    for i in range(len(net)):
        if net[i] == '.':
            at = i
    Assert(at != 0, 'a network address without an id is refused')
    Assert(a.protocol == p and a.net == net and a.contract == con, 'an address is its protocol, network and contract')
    Assert(a.nid == net[:max(at, 0)] and a.chain == net[at + 1:], 'a network is its id and its chain')
    Assert(str(a) == text, 'an address is written as it was read')
    Assert(bytes(a) == text.encode(), 'an address is written as it was read')
    b = BTPAddress.from_bytes(text.encode())
    Assert(b == a and not (b != a), 'an address is read from its bytes too')
    Assert(a.is_valid() == (len(p) > 0 and len(net) > 0 and k > 0), 'an address with all parts is valid')
    try:
        BTPAddress.from_string_with_validation(text)
        ok = True
    except BTPException:
        ok = False
    Assert(ok == a.is_valid(), 'an address without all parts is refused where one is needed')
    c = a.replace_contract('new')
    Assert(str(c) == p + '://' + net + '/new' and a.contract == con, 'the contract of an address can be replaced')
    Reach('valid' if ok else 'incomplete')


def VH_equal():
    """Addresses are equal when their texts are."""
    ts = []
    for i in range(2):
        net = Name('net', Choose('n', 1, 2)) + ['', '.ic'][Choose('dot', 0, 1)]
        ts.append('btp://' + net + '/' + Name('c', Choose('k', 0, 1)))
    a, b = BTPAddress.from_string(ts[0]), BTPAddress.from_string(ts[1])
    same = ts[0] == ts[1]
    if same:
        Assert(a == b and not (a != b), 'equal texts are equal addresses')
        Reach('same')
    else:
        Assert(a != b and not (a == b), 'different texts are different addresses')
        Reach('different')
    Assert(not (a == ts[0]), 'a text is not an address')


def VH_net():
    """The address of a network alone."""
    net = Name('net', Choose('n', 0, 3))
    a = BTPAddress.from_net_address(net)
    Assert(a.protocol == 'btp' and a.net == net and a.contract == '' and not a.is_valid(), 'a network is no contract')
    b = BTPAddress.from_string('btp://' + net)
    Assert(b.net == net and b.contract == '', 'a network is read without a contract')
    Assert(BTPAddress.from_string(None) is None, 'no text is no address')
    Reach('net')


def VH_any():
    """Arbitrary texts are read or refused with the error of the contracts."""
    s = Str('s', Choose('len', 0, 6 if Thorough() else 5))
    try:
        a = BTPAddress.from_string(s)
    except BTPException:
        Reach('refused')
        return
    t = str(a)
    n = len(t)
    Assert(t[:3] != '://' or s[:3] == '://', 'an address starts as its text')
    Assert(a.protocol + '://' + a.net == s[:len(a.protocol) + 3 + len(a.net)], 'protocol and network are those of the text')
    Reach('read')
