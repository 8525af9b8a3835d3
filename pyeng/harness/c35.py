"""What is registered at the message center, and who may do it."""
from pe import *
from harness.bmclib import *

USER = Address(0, b'\x33' * 20)
APIS = ['addPermission', 'removePermission', 'addService', 'removeService', 'addVerifier', 'removeVerifier', 'addLink', 'removeLink',
        'setLink', 'addRoute', 'removeRoute', 'nextRelays', 'sendMessage']


def find(model, k):
    for e in model:
        if e[0] == k:
            return e
    return None


def same(got, model, what):
    Assert(len(got) == len(model), 'all %s and no others are told' % what)
    for e in model:
        ok = False
        for k in got:
            v = got[k]
            ok = Or(ok, And(k == e[0], (v if not hasattr(v, 'net') else str(v)) == e[1]))
        Assert(ok, '%s are told as they were registered' % what)


def VH_services():
    """Services come and go."""
    w, vs, ss = center([('0xa.n', 0xa1)])
    names = [Name('x', Choose('lx', 1, 2)), Name('y', 1)]
    addrs = [contract(1), contract(2)]
    model = []
    for i in range(4 if Thorough() else 3):
        k = names[Choose('k', 0, 1)]
        e = find(model, k)
        if Choose('op', 0, 1) == 0:
            a = addrs[Choose('a', 0, 1)]
            bad, r = Refused(w.call, OWNER, BMC, 'addService', k, a)
            Assert(bad == (e is not None), 'a service is registered unless there is one of its name')
            if not bad:
                model.append([k, a])
        else:
            bad, r = Refused(w.call, OWNER, BMC, 'removeService', k)
            Assert(bad == (e is None), 'a service that is registered can be removed')
            if not bad:
                model = [x for x in model if x is not e]
    same(w.call(OWNER, BMC, 'getServices'), model, 'services')
    w.call(OWNER, BMC, 'setAccessControl', True)
    for a in addrs:
        there = any(e[1] is a for e in model)
        bad, r = Refused(w.call, a, BMC, 'sendMessage', '0xa.n', 'svc', 1, b'')
        Assert(bad != there, 'registered services, and no others, may send')
    Reach('services%d' % len(model))


def VH_verifiers():
    """Verifiers, links and routes come and go."""
    w, vs, ss = center([])
    nets = ['0x' + Name('x', 1) + '.n', '0x' + Name('y', 1) + '.n']
    same_net = nets[0] == nets[1]
    tags = [0x11, 0x12]
    V, L, R = [], [], []
    for i in range(5 if Thorough() else 4):
        j = Choose('j', 0, 1)
        op = Choose('op', 0, 5) if i else 0
        net, va = nets[j], contract(0xe0 + j)
        link = 'btp://' + net + '/' + str(contract(tags[j]))
        dst = btp('0xdd.n', 0xd0 + j)
        ev, el, er = find(V, net), find(L, link), find(R, dst)
        if op == 0:
            bad, r = Refused(w.call, OWNER, BMC, 'addVerifier', net, va)
            Assert(bad == (ev is not None), 'a verifier is registered unless its network has one')
            if not bad:
                w.external(va, Verifier())
                V.append([net, va])
        elif op == 1:
            bad, r = Refused(w.call, OWNER, BMC, 'removeVerifier', net)
            used = False
            for e in L:
                if e[1] == net:
                    used = True
            Assert(bad == (ev is None or used), 'a verifier is removed unless a link needs it')
            if not bad:
                V = [x for x in V if x is not ev]
        elif op == 2:
            bad, r = Refused(w.call, OWNER, BMC, 'addLink', link)
            Assert(bad == (ev is None or el is not None), 'a link with a verifier is registered once')
            if not bad:
                L.append([link, net])
        elif op == 3:
            bad, r = Refused(w.call, OWNER, BMC, 'removeLink', link)
            Assert(bad == (el is None), 'a link that is registered can be removed')
            if not bad:
                L = [x for x in L if x is not el]
        elif op == 4:
            bad, r = Refused(w.call, OWNER, BMC, 'addRoute', dst, link)
            Assert(bad == (er is not None), 'a route is registered once')
            if not bad:
                R.append([dst, link])
        else:
            bad, r = Refused(w.call, OWNER, BMC, 'removeRoute', dst)
            Assert(bad == (er is None), 'a route that is registered can be removed')
            if not bad:
                R = [x for x in R if x is not er]
    same(w.call(OWNER, BMC, 'getVerifiers'), V, 'verifiers')
    same(w.call(OWNER, BMC, 'getRoutes'), R, 'routes')
    links = w.call(OWNER, BMC, 'getLinks')
    Assert(len(links) == len(L), 'all links and no others are told')
    for a, e in zip(links, L):
        Assert(a == e[0], 'links are told as they were registered')
    for j in (0, 1):
        e = find(L, 'btp://' + nets[j] + '/' + str(contract(tags[j])))
        bad, r = Refused(w.call, OWNER, BMC, 'getStatus', 'btp://' + nets[j] + '/' + str(contract(tags[j])))
        Assert(bad == (e is None), 'links, and nothing else, have a status')
    Reach('v%dl%dr%d' % (len(V), len(L), len(R)))


def args(api):
    return {'addPermission': (USER, 'sendMessage'), 'removePermission': (OPERATOR, 'sendMessage'), 'addService': ('new', contract(9)), 'removeService': ('svc',),
            'addVerifier': ('0xc.n', contract(8)), 'removeVerifier': ('0xb.n',), 'addLink': (btp('0xb.n', 0xb2),), 'removeLink': (btp('0xa.n', 0xa1),),
            'setLink': (btp('0xa.n', 0xa1), 1, 1, 1), 'addRoute': (btp('0xd.n', 0xd4), btp('0xa.n', 0xa1)), 'removeRoute': (btp('0xe.n', 0xe4),),
            'nextRelays': (btp('0xa.n', 0xa1), 0), 'sendMessage': ('0xa.n', 'svc', 1, b'')}[api]


def VH_access():
    """With access control, only who was given the permission may act."""
    w, vs, ss = center([('0xa.n', 0xa1)], [('svc', 0x51)])
    w.call(OWNER, BMC, 'addVerifier', '0xb.n', contract(0xeb))
    w.call(OWNER, BMC, 'addRoute', btp('0xe.n', 0xe4), btp('0xa.n', 0xa1))
    w.call(OWNER, BMC, 'addPermission', OPERATOR, 'sendMessage')
    api = APIS[Choose('api', 0, len(APIS) - 1)]
    given = APIS[Choose('given', 0, len(APIS) - 1)]
    how = Choose('how', 0, 3)
    need = [api]
    if api == 'addService':
        need.append('addPermission')
    if api == 'removeService':
        need.append('removePermission')
    has = []
    if how >= 1:
        w.call(OWNER, BMC, 'addPermission', USER, given)
        has = [given]
        if how == 2:
            w.call(OWNER, BMC, 'addPermission', USER, ','.join(need))
            has = has + need
        if how == 3:
            w.call(OWNER, BMC, 'removePermission', USER, given)
            has = []
            if Choose('again', 0, 1):
                w.call(OWNER, BMC, 'addPermission', USER, ','.join(need))
                has = need
    on = Choose('on', 0, 1) == 1
    who = Address(0, Bytes('who', 20))
    bad, r = Refused(w.call, who, BMC, 'setAccessControl', on)
    Assert(Iff(bad, Not(who == OWNER)), 'only the owner turns access control on and off')
    on = And(on, who == OWNER)
    bad, r = Refused(w.call, USER, BMC, api, *args(api))
    ok = all(n in has for n in need)
    Assert(Iff(bad, And(on, not ok)), 'who has the permission, and nobody else, may act')
    Reach('refused' if bad else 'allowed')


def VH_permissions():
    """Permissions are given and taken."""
    w, vs, ss = center([])
    a, b = USER, Address(0, Bytes('b', 1) + b'\x33' * 19)
    model = []
    for i in range(4 if Thorough() else 3):
        who = [a, b][Choose('who', 0, 1)]
        api = [['sendMessage'], ['addLink'], ['sendMessage', 'addLink']][Choose('api', 0, 2)]
        e = find(model, str(who))
        if Choose('op', 0, 1) == 0:
            w.call(OWNER, BMC, 'addPermission', who, ','.join(api))
            if e is None:
                model.append([str(who), list(api)])
            else:
                e[1] = e[1] + [x for x in api if x not in e[1]]
        else:
            bad, r = Refused(w.call, OWNER, BMC, 'removePermission', who, ','.join(api))
            if e is None:
                Assert(bad, 'only a permission that was given can be taken')
            else:
                Assert(not bad, 'a permission that was given can be taken')
                e[1] = [x for x in e[1] if x not in api]
    got = w.call(OWNER, BMC, 'getPermissions')
    for e in model:
        mine = []
        for k in got:
            if k == e[0]:
                mine = [] if got[k] is None else list(got[k])
        Assert(sorted(mine) == sorted(e[1]), 'permissions are told as they were given')
    bad, r = Refused(w.call, OWNER, BMC, 'addPermission', USER, ['', 'other', 'sendMessage,other', 'sendMessage,'][Choose('odd', 0, 3)])
    Assert(bad, 'only permissions for operations can be given')
    Reach('permissions')
