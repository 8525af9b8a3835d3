"""The containers the Python contracts keep their state in."""
from pe import *
from iconservice import IconScoreDatabase, Address
from pyscore.lib import BTPAddress
from pyscore.lib.icon import StringDictDB, BytesDictDB, AddressDictDB, PropertiesDB, Serializable
from pyscore.lib.icon.db import IterableDictDB, remove_from_array_db
from iconservice import ArrayDB


class Texts(StringDictDB):
    def str_to_object(self, s):
        return s


class Things(BytesDictDB):
    def bytes_to_object(self, b):
        return b


def find(model, k):
    for e in model:
        if e[0] == k:
            return e
    return None


def same(d, model, names):
    keys = d.keys()
    Assert(len(keys) == len(model) and len(d) == len(model), 'the keys are those that were set and not removed')
    for a, e in zip(keys, model):
        Assert(a == e[0], 'the keys are told in their order')
    for k in names:
        e = find(model, k)
        v = d[k]
        if e is None:
            Assert(v is None, 'what was removed or never set is not there')
            Assert(not (k in d), 'what was removed or never set is not there')
        else:
            Assert(v is not None and v == e[1], 'the last value of a key is told')
            Assert(k in d, 'a key that was set is there')


def VH_dict():
    """Any history of a dictionary, in one or more transactions."""
    db = IconScoreDatabase()
    kind = Choose('type', 0, 1)
    make = (lambda: Texts('t', db)) if kind == 0 else (lambda: Things('t', db))
    value = (lambda: Str('v', 1)) if kind == 0 else (lambda: Bytes('v', 1))
    names = [Name('x', Choose('lx', 1, 2)), Name('y', 1)]
    if names[0] == names[1]:
        names = names[:1]
    d = make()
    model = []
    if Choose('old', 0, 1):
        # an entry of a former transaction
        v = value()
        d[names[0]] = v
        model.append([names[0], v])
        d = make()
    for i in range(4 if Thorough() else 3):
        op = Choose('op', 0, 4)
        if op <= 1:
            k = names[min(Choose('k', 0, 1), len(names) - 1)]
            e = find(model, k)
            if op == 0:
                v = value()
                d[k] = v
                if e is None:
                    model.append([k, v])
                else:
                    e[1] = v
            else:
                d.remove(k)
                model = [x for x in model if x is not e]
        elif op == 2:
            d = make()
        elif op == 3:
            d.remove_all()
            model = []
        else:
            same(d, model, names)
    same(d, model, names)
    same(make(), model, names)
    Reach('len%d' % len(model))


class Point(Serializable):
    def __init__(self, b=b''):
        self.b = b

    def to_bytes(self):
        return self.b

    def from_bytes(self, b):
        return Point(b)


class Props(PropertiesDB):
    def __init__(self, prefix, db):
        self.count = 7
        self.name = 'none'
        self.flag = False
        self.raw = b''
        self.owner = None
        self.peer = None
        self.point = Point
        super().__init__(prefix, db)
        self.list = super()._array_db('list', str)
        self.addrs = super()._address_dict_db('addrs')


def VH_props():
    """Any history of properties, in one or more transactions."""
    db = IconScoreDatabase()
    p = Props('p', db)
    other = Props('q', db)
    want = dict(count=7, name='none', flag=False, raw=b'', owner=None, peer=None, point=None)
    for i in range(3):
        op = Choose('op', 0, 8)
        if op == 0:
            want['count'] = p.count = Int('count', -(1 << 70), 1 << 70) if i == 0 else Int('small', -300, 300)
        elif op == 1:
            want['name'] = p.name = Str('name', Choose('n', 0, 2))
        elif op == 2:
            v = Bool('flag')
            v = True if v else False
            want['flag'] = p.flag = v
        elif op == 3:
            want['raw'] = p.raw = Bytes('raw', Choose('n', 0, 2))
        elif op == 4:
            want['owner'] = p.owner = Address(Choose('pre', 0, 1), Bytes('body', 2) + b'\x07' * 18)
        elif op == 5:
            want['peer'] = p.peer = BTPAddress('btp', '0x1.' + Name('net', 1), Name('c', 2))
        elif op == 6:
            b = Bytes('pt', Choose('n', 0, 2))
            p.point = Point(b)
            want['point'] = b
        elif op == 7:
            p = Props('p', db)
        else:
            p.remove_all()
            p = Props('p', db)
            want = dict(count=7, name='none', flag=False, raw=b'', owner=None, peer=None, point=None)
    for q in (p, Props('p', db)):
        for k in want:
            v = getattr(q, k)
            if k == 'point' and v is not None:
                v = v.b
            if want[k] is None:
                Assert(v is None, 'a property that was not set has its default')
            else:
                Assert(v == want[k], 'a property has the value that was set last')
    Assert(other.count == 7 and Props('q', db).count == 7 and Props('q', db).name == 'none', 'properties of others are not touched')
    Reach('props')


def VH_parts():
    """Properties with lists and dictionaries are removed with them."""
    db = IconScoreDatabase()
    n, m = Choose('n', 0, 3), Choose('m', 0, 3)
    p = Props('p', db)
    for i in range(n):
        p.list.put('e%d' % i)
    for i in range(m):
        p.addrs['k%d' % i] = Address(0, bytes([i]) * 20)
    if Choose('reload', 0, 1):
        p = Props('p', db)
    Assert(len(p.list) == n and len(p.addrs) == m, 'lists and dictionaries keep their entries')
    for i in range(m):
        Assert(p.addrs['k%d' % i] == Address(0, bytes([i]) * 20), 'lists and dictionaries keep their entries')
    p.remove_all()
    q = Props('p', db)
    Assert(len(q.list) == 0 and len(q.addrs) == 0, 'nothing is left after all was removed')
    for i in range(m):
        Assert(q.addrs['k%d' % i] is None, 'nothing is left after all was removed')
    Reach('parts')


def VH_array():
    """Removing a value from a list."""
    db = IconScoreDatabase()
    n = Choose('n', 0, 4)
    a = ArrayDB('a', db, str)
    vals = [Str('v', 1) for _ in range(n)]
    for v in vals:
        a.put(v)
    x = Str('x', 1)
    i = remove_from_array_db(a, x)
    had = False
    for v in vals:
        had = Or(had, v == x)
    if i >= 0:
        Assert(had, 'only a value of the list is removed')
        Assert(len(a) == n - 1, 'one value is removed')
        Assert(vals[i] == x, 'the position of the value is told')
        left = vals[:i] + vals[i + 1:]
        for v in left:
            c, k = 0, 0
            for y in a:
                if y == v:
                    c += 1
            for y in left:
                if y == v:
                    k += 1
            Assert(c == k, 'the other values stay')
        Reach('removed')
    else:
        Assert(And(Not(had), len(a) == n), 'a value of the list is found')
        Reach('absent')
