"""The token service: what was deposited, moved and answered adds up."""
import pe
from pe import *
from iconservice import Address, World, IconScoreException, json_dumps, json_loads
from pyscore.token.token_bsh import TokenBSH

BMC = Address(1, b'\xb1' * 20)
BSH = Address(1, b'\xb2' * 20)
OWNER = Address(0, b'\x0f' * 20)
USERS = [Address(0, b'\x01' * 20), Address(0, b'\x02' * 20)]
TOKENS = [Address(1, b'\x71' * 20), Address(1, b'\x72' * 20)]
NAMES = ['tok', 'tik']
NET, FAR = '0x2.far', 'hx' + '77' * 20


class Token:
    def __init__(self):
        self.paid = []
        self.fail = False

    def transfer(self, to, value, data=None):
        if self.fail:
            raise IconScoreException('no transfer')
        self.paid.append((to, value))


class Center:
    def __init__(self):
        self.sent = []
        self.fail = False

    def sendMessage(self, to, svc, sn, msg):
        if self.fail:
            raise IconScoreException('unreachable')
        self.sent.append((to, svc, sn, msg))


class Model:
    def __init__(self, tokens=1):
        self.w = World()
        self.bmc = Center()
        self.w.external(BMC, self.bmc)
        self.w.deploy(BSH, TokenBSH, OWNER, BMC)
        self.tokens = [Token(), Token()]
        for i in range(tokens):
            self.w.external(TOKENS[i], self.tokens[i])
            self.w.call(OWNER, BSH, 'register', NAMES[i], TOKENS[i])
        self.usable = dict(((u, t), 0) for u in range(2) for t in range(tokens))
        self.locked = dict(self.usable)
        self.pending = {}
        self.sn = 0
        self.n = tokens

    def check(self):
        for u in range(2):
            got = self.w.call(OWNER, BSH, 'balanceOf', USERS[u])
            for t in range(self.n):
                e = got.get(NAMES[t])
                a, b = (0, 0) if e is None else (e['usable'], e['locked'])
                Assert(And(a == self.usable[u, t], b == self.locked[u, t]), 'balances are what was deposited, received, sent and reclaimed')
        for k in (1, 2, 3):
            Assert(self.w.call(OWNER, BSH, 'isPending', k) == (k in self.pending), 'a transfer is pending until it was answered')


def step(m, u, t, op):
    w = m.w
    sent = len(m.bmc.sent)
    paid = len(m.tokens[t].paid)
    evs = len(w.events)
    if op == 0:
        v = Int('deposit', -2, 60)
        bad, r = Refused(w.call, TOKENS[t], BSH, 'tokenFallback', USERS[u], v, b'')
        Assert(Iff(bad, v < 0), 'a deposit is taken unless it is negative')
        if not bad:
            m.usable[u, t] = m.usable[u, t] + v
    elif op == 1:
        v = Int('reclaim', -2, 60)
        bad, r = Refused(w.call, USERS[u], BSH, 'reclaim', NAMES[t], v)
        Assert(Iff(Not(bad), And(v >= 0, v <= m.usable[u, t], not m.tokens[t].fail)), 'what is usable, and no more, can be reclaimed')
        if not bad:
            m.usable[u, t] = m.usable[u, t] - v
            p = m.tokens[t].paid
            Assert(len(p) == paid + 1 and p[-1][0] == USERS[u], 'what is reclaimed is paid once, to its owner')
            Assert(p[-1][1] == v, 'what is reclaimed is paid')
            paid += 1
    elif op == 2:
        v = Int('send', -2, 60)
        bad, r = Refused(w.call, USERS[u], BSH, 'transfer', NAMES[t], 'btp://%s/%s' % (NET, FAR), v)
        Assert(Iff(Not(bad), And(v >= 0, v <= m.usable[u, t], not m.bmc.fail)), 'what is usable, and no more, can be sent')
        if not bad:
            m.sn += 1
            m.usable[u, t] = m.usable[u, t] - v
            m.locked[u, t] = m.locked[u, t] + v
            m.pending[m.sn] = (u, t, v)
            Assert(len(m.bmc.sent) == sent + 1, 'a transfer is sent once')
            to, svc, sn, msg = m.bmc.sent[-1]
            Assert(to == NET and svc == 'token' and sn == m.sn, 'a transfer is sent to its network with a number of its own')
            d = json_loads(msg.decode('utf-8'))
            Assert(d['type'] == 'req_token_transfer' and d['from'] == str(USERS[u]) and d['to'] == FAR and d['args']['name'] == NAMES[t], 'a transfer tells who, to whom and what')
            Assert(int(d['args']['value'], 16) == v, 'a transfer tells the amount')
            sent += 1
            Assert(len(w.events) == evs + 1, 'a transfer is told')
            _, name, args = w.events[-1]
            Assert(name == 'TransferStart' and args[0] == USERS[u] and args[1] == NAMES[t] and args[2] == m.sn and args[4] == FAR, 'a transfer is told')
            Assert(args[3] == v, 'a transfer is told')
    elif op == 3:
        # a transfer of the other side
        known = Choose('known', 0, 1) == 1
        v = Int('value', -2, 60)
        sn = Int('their', 1, 3)
        msg = {'type': 'req_token_transfer', 'from': FAR, 'to': str(USERS[u]), 'args': {'name': NAMES[t] if known else 'odd', 'value': hex(v)}}
        bad, r = Refused(w.call, BMC, BSH, 'handleBTPMessage', NET, 'token', sn, json_dumps(msg).encode('utf-8'))
        if m.bmc.fail:
            Assert(bad, 'a transfer that cannot be answered is refused')
        elif bad:
            Assert(v < 0, 'a transfer is taken unless its amount is negative')
        else:
            Assert(Or(not known, v >= 0), 'a transfer is taken unless its amount is negative')
            if known:
                m.usable[u, t] = m.usable[u, t] + v
            Assert(len(m.bmc.sent) == sent + 1, 'a transfer is answered once')
            to, svc, n, ans = m.bmc.sent[-1]
            Assert(And(to == NET, svc == 'token', n == sn), 'a transfer is answered with its number')
            d = json_loads(ans.decode('utf-8'))
            Assert(d['type'] == 'res_token_transfer' and (d['code'] == 0) == known, 'the answer tells whether the transfer was taken')
            sent += 1
    elif op == 4:
        # an answer
        sn = Choose('answered', 1, 2)
        code = Choose('code', -1, 1)
        bad, r = Refused(w.call, BMC, BSH, 'handleBTPMessage', NET, 'token', sn, json_dumps({'type': 'res_token_transfer', 'code': code}).encode('utf-8'))
        settle(m, sn, bad, code == 0)
    elif op == 5:
        sn = Choose('answered', 1, 2)
        bad, r = Refused(w.call, BMC, BSH, 'handleBTPError', 'btp://%s/x' % NET, 'token', sn, Int('code', 0, 100), 'why')
        settle(m, sn, bad, False)
    elif op == 6:
        # a message of a kind only the other side knows, and what is answered to such
        kind = ['odd', 'res_unknown_type'][Choose('kind', 0, 1)]
        sn = Choose('answered', 1, 2)
        bad, r = Refused(w.call, BMC, BSH, 'handleBTPMessage', NET, 'token', sn, json_dumps({'type': kind}).encode('utf-8'))
        if kind == 'odd':
            if not bad:
                Assert(len(m.bmc.sent) == sent + 1, 'an unknown request is answered')
                d = json_loads(m.bmc.sent[-1][3].decode('utf-8'))
                Assert(d['type'] == 'res_unknown_type', 'an unknown request is answered')
                sent += 1
            else:
                Assert(m.bmc.fail, 'an unknown request is answered')
        elif sn in m.pending:
            settle(m, sn, bad, False)
    else:
        # someone else
        who = Address(Choose('prefix', 0, 1), Bytes('who', 20))
        Assume(Not(who == BMC))
        for x in TOKENS[:m.n]:
            Assume(Not(who == x))
        v = Int('value', 0, 60)
        sn = Choose('answered', 1, 2)
        k = Choose('call', 0, 3)
        if k == 0:
            bad, r = Refused(w.call, who, BSH, 'tokenFallback', USERS[u], v, b'')
        elif k == 1:
            bad, r = Refused(w.call, who, BSH, 'handleBTPError', 'btp://%s/x' % NET, 'token', sn, 1, 'why')
        elif k == 2:
            msg = {'type': 'req_token_transfer', 'from': FAR, 'to': str(USERS[u]), 'args': {'name': NAMES[t], 'value': hex(v)}}
            bad, r = Refused(w.call, who, BSH, 'handleBTPMessage', NET, 'token', sn, json_dumps(msg).encode('utf-8'))
        else:
            bad, r = Refused(w.call, who, BSH, 'handleBTPMessage', NET, 'token', sn, json_dumps({'type': 'res_token_transfer', 'code': 1}).encode('utf-8'))
        Assert(bad, 'only tokens deposit and only the message center brings messages')
    Assert(len(m.bmc.sent) == sent, 'nothing else is sent')
    Assert(len(m.tokens[t].paid) == paid, 'nothing else is paid')


def settle(m, sn, bad, ok):
    e = m.pending.get(sn)
    if e is None:
        Assert(bad, 'only a pending transfer is answered, and once')
        return
    Assert(not bad, 'a pending transfer is settled by its answer')
    u, t, v = e
    m.locked[u, t] = m.locked[u, t] - v
    if not ok:
        m.usable[u, t] = m.usable[u, t] + v
    m.pending.pop(sn)
    Reach('sent' if ok else 'returned')


def VH_history():
    """What users have, after any transactions."""
    m = Model(2 if Thorough() else 1)
    first = Int('first', 0, 40)
    w = m.w
    w.call(TOKENS[0], BSH, 'tokenFallback', USERS[0], first, b'')
    m.usable[0, 0] = first
    n = 3 if Thorough() else 2
    for i in range(n):
        op = Choose('op', 0, 6)
        u = 0
        if op in (0, 3):
            u = Choose('u', 0, 1)
        step(m, u, Choose('t', 0, m.n - 1), op)
    m.check()
    Reach('history')


def VH_faults():
    """A token or a message center that fails changes nothing."""
    m = Model(1)
    first = Int('first', 0, 40)
    m.w.call(TOKENS[0], BSH, 'tokenFallback', USERS[0], first, b'')
    m.usable[0, 0] = first
    if Choose('pending', 0, 1) == 1:
        step(m, 0, 0, 2)
    k = Choose('fails', 0, 1)
    if k == 0:
        m.bmc.fail = True
    else:
        m.tokens[0].fail = True
    step(m, 0, 0, Choose('op', 0, 6))
    m.check()
    Reach('fault')


def VH_others():
    """Others than the tokens and the message center change nothing."""
    m = Model(1)
    m.w.call(TOKENS[0], BSH, 'tokenFallback', USERS[0], 9, b'')
    m.usable[0, 0] = 9
    step(m, 0, 0, 2)
    step(m, 0, 0, 7)
    m.check()
    Reach('others')


def VH_register():
    """Tokens are registered by the owner, under one name each."""
    m = Model(0)
    w = m.w
    have = []
    for i in range(3):
        who = Address(0, Bytes('who', 20)) if i == 0 else OWNER
        t = Choose('t', 0, 1)
        bad, r = Refused(w.call, who, BSH, 'register', NAMES[t], TOKENS[Choose('a', 0, 1)])
        Assert(Iff(Not(bad), And(who == OWNER, t not in have)), 'the owner registers a token once')
        if not bad:
            have.append(t)
            Reach('registered')
    names = w.call(OWNER, BSH, 'tokenNames')
    Assert(len(names) == len(have) and all(NAMES[t] in names for t in have), 'the tokens are told')
    for t in range(2):
        a = w.call(OWNER, BSH, 'addressOf', NAMES[t])
        Assert((a is not None) == (t in have), 'the tokens are told')
        if a is not None:
            Assert(a == names[NAMES[t]], 'the tokens are told')
    Reach('registered%d' % len(have))


def VH_pending():
    """Several transfers wait for their answers, which come in any order."""
    m = Model(2)
    w = m.w
    for u in range(2):
        for t in range(2):
            m.usable[u, t] = 8 + u + 2 * t
            w.call(TOKENS[t], BSH, 'tokenFallback', USERS[u], 8 + u + 2 * t, b'')
    for i in range(2):
        u, t = Choose('u', 0, 1), Choose('t', 0, 1)
        v = Int('v', 0, 7)
        bad, r = Refused(w.call, USERS[u], BSH, 'transfer', NAMES[t], 'btp://%s/%s' % (NET, FAR), v)
        Assert(Iff(bad, v > m.usable[u, t]), 'what is usable, and no more, can be sent')
        if not bad:
            m.sn += 1
            m.usable[u, t] = m.usable[u, t] - v
            m.locked[u, t] = m.locked[u, t] + v
            m.pending[m.sn] = (u, t, v)
    for i in range(2):
        step(m, 0, 0, 4)
    m.check()
    Reach('answered%d' % (2 - len(m.pending)))
