"""The part of the ICON service a contract of /repo/pyscore sees."""
import inspect
from abc import ABC, abstractmethod
import pe as _pe


class IconScoreException(Exception):
    def __init__(self, message='', code=0):
        super().__init__(message)
        self.message = message
        self.code = code


class Logger:
    @staticmethod
    def warning(*a):
        pass

    debug = info = error = warning


def sha3_256(b):
    if not isinstance(b, bytes):
        raise TypeError('sha3_256 needs bytes')
    return _pe.sha3(b)


def recover_key(msg_hash, signature, compressed=True):
    """The signer of a hash: an unknown function of both."""
    if not isinstance(msg_hash, bytes) or not isinstance(signature, bytes) or len(msg_hash) != 32 or len(signature) != 65:
        return None
    return _pe.uf('signer', [msg_hash, signature], 20)


def create_address_with_key(key):
    if not isinstance(key, bytes):
        return None
    return Address(0, key)


class Address:
    def __init__(self, prefix, body):
        if len(body) != 20:
            raise IconScoreException('invalid address')
        self.prefix, self.body = prefix, body

    is_contract = property(lambda self: self.prefix == 1)

    @staticmethod
    def from_bytes(b):
        if not isinstance(b, bytes) or len(b) != 21:
            return None
        if b[0] == 0:
            return Address(0, b[1:])
        if b[0] == 1:
            return Address(1, b[1:])
        raise ValueError('invalid address prefix')

    @staticmethod
    def from_string(s):
        if not isinstance(s, str) or len(s) != 42:
            raise IconScoreException('invalid address')
        if s[:2] == 'hx':
            p = 0
        elif s[:2] == 'cx':
            p = 1
        else:
            raise IconScoreException('invalid address')
        out = []
        for i in range(20):
            v = 0
            for c in s[2 + 2 * i:4 + 2 * i]:
                x = ord(c)
                if x >= 48 and x <= 57:
                    d = x - 48
                elif x >= 97 and x <= 102:
                    d = x - 87
                else:
                    raise IconScoreException('invalid address')
                v = v * 16 + d
            out.append(v)
        return Address(p, bytes(out))

    def to_bytes(self):
        return bytes([self.prefix]) + self.body

    def __eq__(self, o):
        return isinstance(o, Address) and self.prefix == o.prefix and self.body == o.body

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash((self.prefix, self.body))

    def __str__(self):
        return ('cx' if self.prefix == 1 else 'hx') + self.body.hex()

    def __repr__(self):
        return 'address'


ZERO_SCORE_ADDRESS = Address(1, b'\0' * 20)


# ---- json

def _quote(s):
    out = '"'
    for c in s:
        x = ord(c)
        if x == 34 or x == 92:
            out = out + '\\' + c
        elif x < 32 or x > 126:
            raise _pe.Unmodelled('character in json')
        else:
            out = out + c
    return out + '"'


def json_dumps(o, **kw):
    if not _pe.SYM:
        import json
        return json.dumps(o, **kw)
    if o is None:
        return 'null'
    if isinstance(o, bool):
        return 'true' if o else 'false'
    if isinstance(o, int):
        return '%d' % o
    if isinstance(o, str):
        return _quote(o)
    if isinstance(o, (list, tuple)):
        return '[' + ', '.join([json_dumps(x) for x in o]) + ']'
    if isinstance(o, dict):
        return '{' + ', '.join([_quote(k) + ': ' + json_dumps(v) for k, v in o.items()]) + '}'
    raise TypeError('not serializable')


class _Json:
    def __init__(self, s):
        self.s, self.i = s, 0

    def bad(self):
        raise ValueError('invalid json')

    def blank(self):
        while self.i < len(self.s) and self.s[self.i] in (' ', '\n', '\t', '\r'):
            self.i += 1

    def peek(self):
        if self.i >= len(self.s):
            self.bad()
        return self.s[self.i]

    def text(self):
        out = ''
        self.i += 1
        while True:
            c = self.peek()
            self.i += 1
            if c == '"':
                return out
            x = ord(c)
            if x == 92:
                c = self.peek()
                if not (c == '"' or ord(c) == 92):
                    raise _pe.Unmodelled('escape in json')
                self.i += 1
            elif x < 32:
                self.bad()
            out = out + c

    def value(self):
        self.blank()
        c = self.peek()
        if c == '"':
            return self.text()
        if c == '{' or c == '[':
            end = '}' if c == '{' else ']'
            out, first = [], True
            self.i += 1
            while True:
                self.blank()
                if self.peek() == end and first:
                    break
                if not first:
                    if self.peek() == end:
                        break
                    if not (self.peek() == ','):
                        self.bad()
                    self.i += 1
                    self.blank()
                first = False
                if end == '}':
                    if not (self.peek() == '"'):
                        self.bad()
                    k = self.text()
                    self.blank()
                    if not (self.peek() == ':'):
                        self.bad()
                    self.i += 1
                    out.append((k, self.value()))
                else:
                    out.append(self.value())
            self.i += 1
            return dict(out) if end == '}' else out
        for w, v in (('null', None), ('true', True), ('false', False)):
            if self.s[self.i:self.i + len(w)] == w:
                self.i += len(w)
                return v
        j = self.i
        while j < len(self.s) and ord(self.s[j]) >= 45 and ord(self.s[j]) <= 57 and not (self.s[j] == '/'):
            if self.s[j] == '.':
                raise _pe.Unmodelled('fraction in json')
            j += 1
        if j == self.i:
            self.bad()
        v = int(self.s[self.i:j])
        self.i = j
        return v


def json_loads(s, **kw):
    if not _pe.SYM:
        import json
        return json.loads(s, **kw)
    p = _Json(s)
    v = p.value()
    p.blank()
    if p.i != len(s):
        p.bad()
    return v


# ---- storage

class IconScoreDatabase:
    def __init__(self):
        self.entries = []

    def _find(self, key):
        for e in self.entries:
            if len(e[0]) == len(key):
                same = True
                for a, b in zip(e[0], key):
                    if not (_text(a) == _text(b)):
                        same = False
                        break
                if same:
                    return e
        return None

    def get(self, key):
        e = self._find(key)
        return None if e is None else e[1]

    def put(self, key, value):
        e = self._find(key)
        if e is None:
            self.entries.append([key, value])
        else:
            e[1] = value

    def remove(self, key):
        e = self._find(key)
        if e is not None:
            self.entries = [x for x in self.entries if x is not e]

    def snapshot(self):
        return [list(e) for e in self.entries]

    def restore(self, s):
        self.entries = [list(e) for e in s]


def _text(k):
    if isinstance(k, Address):
        return str(k)
    if isinstance(k, bytes):
        return k.hex()
    return k


def _default(t):
    if t == int:
        return 0
    if t == str:
        return ''
    if t == bool:
        return False
    return None


def _check(t, v):
    if t in (int, str, bytes, bool, Address) and not isinstance(v, t):
        raise IconScoreException('invalid type of value')
    return v


class VarDB:
    def __init__(self, key, db, value_type):
        self._k, self._db, self._t = ('V', str(key)), db, value_type

    def set(self, v):
        self._db.put(self._k, _check(self._t, v))

    def get(self):
        v = self._db.get(self._k)
        return _default(self._t) if v is None else v

    def remove(self):
        self._db.remove(self._k)


class DictDB:
    def __init__(self, key, db, value_type, depth=1, prefix=None):
        self._p = prefix if prefix is not None else ('D', str(key))
        self._db, self._t, self._d = db, value_type, depth

    def __getitem__(self, k):
        if self._d > 1:
            return DictDB(None, self._db, self._t, self._d - 1, self._p + (k,))
        v = self._db.get(self._p + (k,))
        return _default(self._t) if v is None else v

    def __setitem__(self, k, v):
        self._db.put(self._p + (k,), _check(self._t, v))

    def __contains__(self, k):
        return self._db.get(self._p + (k,)) is not None

    def remove(self, k):
        self._db.remove(self._p + (k,))

    __delitem__ = remove


class ArrayDB:
    def __init__(self, key, db, value_type):
        self._k, self._db, self._t = str(key), db, value_type

    def __len__(self):
        n = self._db.get(('A', self._k))
        return 0 if n is None else n

    def put(self, v):
        n = len(self)
        self._db.put(('A', self._k, n), _check(self._t, v))
        self._db.put(('A', self._k), n + 1)

    def pop(self):
        n = len(self)
        if n == 0:
            return None
        v = self._db.get(('A', self._k, n - 1))
        self._db.remove(('A', self._k, n - 1))
        self._db.put(('A', self._k), n - 1)
        return v

    def _i(self, i):
        n = len(self)
        if i < 0:
            i += n
        if i < 0 or i >= n:
            raise IconScoreException('ArrayDB out of index')
        return i

    def get(self, i=0):
        return self._db.get(('A', self._k, self._i(i)))

    def __getitem__(self, i):
        return self.get(i)

    def __setitem__(self, i, v):
        self._db.put(('A', self._k, self._i(i)), _check(self._t, v))

    def __iter__(self):
        for i in range(len(self)):
            yield self.get(i)

    def __contains__(self, v):
        for x in self:
            if x == v:
                return True
        return False


# ---- contracts

class _Msg:
    def __init__(self, sender, value=0):
        self.sender, self.value = sender, value


class _Tx:
    def __init__(self, origin):
        self.origin = origin
        self.index, self.timestamp, self.nonce, self.hash = 0, 0, 0, b''


class World:
    """A chain with contracts; calls that raise are undone."""

    def __init__(self):
        self.height = 1
        self.msgs = []
        self.tx = None
        self.cls, self.dbs, self.live, self.other = {}, {}, {}, {}
        self.events = []
        self.owner = None

    def deploy(self, addr, cls, owner, *args):
        self.cls[str(addr)] = (cls, addr, owner)
        self.dbs[str(addr)] = IconScoreDatabase()
        return self.call(owner, addr, 'on_install', *args)

    def external(self, addr, obj):
        """A contract played by the harness."""
        self.other[str(addr)] = obj

    def instance(self, addr):
        k = str(addr)
        if k in self.other:
            return self.other[k]
        if k not in self.cls:
            raise IconScoreException('no contract')
        if k not in self.live:
            cls, a, owner = self.cls[k]
            o = cls.__new__(cls)
            o._world, o._addr, o._owner = self, a, owner
            o.__init__(self.dbs[k])
            self.live[k] = o
        return self.live[k]

    def call(self, origin, addr, name, *args):
        """A transaction."""
        self.live = {}
        self.tx = _Tx(origin)
        save = dict((k, d.snapshot()) for k, d in self.dbs.items())
        ev = list(self.events)
        self.msgs = [_Msg(origin)]
        try:
            return getattr(self.instance(addr), name)(*args)
        except BaseException:
            for k in save:
                self.dbs[k].restore(save[k])
            self.events = ev
            raise
        finally:
            self.live, self.msgs = {}, []

    def inner(self, caller, addr, name, args, kw):
        save = dict((k, d.snapshot()) for k, d in self.dbs.items())
        ev = list(self.events)
        self.msgs.append(_Msg(caller))
        try:
            return getattr(self.instance(addr), name)(*args, **kw)
        except BaseException:
            for k in save:
                self.dbs[k].restore(save[k])
            self.events = ev
            raise
        finally:
            self.msgs.pop()


class _Proxy:
    def __init__(self, world, caller, addr):
        self._w, self._c, self._a = world, caller, addr

    def __getattr__(self, name):
        def f(*args, **kw):
            return self._w.inner(self._c, self._a, name, args, kw)
        return f


class IconScoreBase(ABC):
    def __init__(self, db):
        self.db = db

    def on_install(self, **kw):
        pass

    def on_update(self, **kw):
        pass

    msg = property(lambda self: self._world.msgs[-1])
    tx = property(lambda self: self._world.tx)
    block_height = property(lambda self: self._world.height)
    address = property(lambda self: self._addr)
    owner = property(lambda self: self._owner)

    def create_interface_score(self, addr, iface):
        return _Proxy(self._world, self._addr, addr)

    def call(self, addr_to, func_name, kw_dict=None, amount=0):
        return self._world.inner(self._addr, addr_to, func_name, (), kw_dict or {})

    def now(self):
        return 0

    def revert(self, message=None, code=0):
        raise IconScoreException(message, code)


def revert(message=None, code=0):
    raise IconScoreException(message, code)


class InterfaceScore(ABC):
    def __init__(self, addr=None):
        pass


def external(f=None, readonly=False):
    if f is None:
        return lambda g: g
    return f


def interface(f):
    return f


def payable(f):
    return f


def eventlog(f=None, *, indexed=0):
    def deco(g):
        def h(self, *args, **kwargs):
            if kwargs or len(args) != g.__code__.co_argcount - 1:
                b = inspect.signature(g).bind(self, *args, **kwargs)
                b.apply_defaults()
                args = tuple(b.arguments.values())[1:]
            self._world.events.append((self._addr, g.__name__, args))
        h.__name__ = g.__name__
        return h
    return deco(f) if f is not None else deco
