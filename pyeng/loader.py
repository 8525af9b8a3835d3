"""Loads the contracts of /repo/pyscore, their iconservice environment and the
harnesses, either as they are (native) or rewritten to run on unknown values."""
import ast
import builtins
import importlib.abc
import importlib.util
import os
import sys

import sym
from sym import (E, Abort, SBool, SByteArray, SBytes, SInt, SRatio, SStr, elems, lookup, mkbytes, mkstr, num, strel, unval, val)
import z3

HERE = os.path.dirname(os.path.abspath(__file__))
SYMBOLIC = False


# ---- stand-ins for builtin types

def shadow(name, base, like):
    class M(type):
        def __instancecheck__(cls, x):
            return isinstance(x, like)

        def __subclasscheck__(cls, c):
            return c is cls or c in like or (isinstance(c, type) and issubclass(c, base))

        def __repr__(cls):
            return "<class '%s'>" % name

        def __getattr__(cls, n):
            return getattr(base, n)
    M.__name__ = name + 'Meta'
    return M


class XInt(metaclass=shadow('int', int, (int, SInt, SBool))):
    def __new__(cls, x=0, *a):
        if cls is not XInt:
            return int.__new__(cls, x, *a)
        if isinstance(x, SInt):
            return x
        if isinstance(x, SBool):
            return num(x)
        if isinstance(x, SRatio):
            return x.trunc()
        if isinstance(x, (SStr, SBytes)):
            return parse_int(x, *a)
        return int(x, *a)

    @staticmethod
    def from_bytes(b, byteorder='big', *, signed=False):
        if not isinstance(b, (bytes, bytearray, SBytes, SByteArray)):
            b = XBytes(b)
        el = elems(b)
        if all(isinstance(x, int) for x in el):
            return int.from_bytes(bytes(el), byteorder, signed=signed)
        if byteorder == 'little':
            el.reverse()
        ex = [z3.BitVecVal(x, 8) if isinstance(x, int) else x for x in el]
        e = z3.Concat(ex) if len(ex) > 1 else ex[0]
        w = 8 * len(ex)
        if signed:
            return sym.mk(e, -(1 << (w - 1)), (1 << (w - 1)) - 1)
        k = 0
        while k < len(el) and el[k] == 0 and isinstance(el[k], int):
            k += 1
        return sym.mk(z3.ZeroExt(1, e), 0, (1 << (w - 8 * k)) - 1)


def parse_int(s, base=10):
    el = strel(s) if isinstance(s, SStr) else elems(s)
    neg = False
    if el and isinstance(el[0], int) and el[0] in (43, 45):
        neg, el = el[0] == 45, el[1:]
    if base in (0, 16) and len(el) > 2 and el[0] == 48 and el[1] in (120, 88):
        base, el = 16, el[2:]
    if base == 0:
        base = 10
    if not el:
        raise ValueError('invalid literal for int()')
    r = 0
    for x in el:
        v = val(x)
        if isinstance(v, SInt):
            e = sym.ext(v, 9)
            dig = z3.And(z3.UGE(e, 48), z3.ULE(e, 57))
            low = z3.And(z3.UGE(e, 97), z3.ULE(e, 102), base == 16)
            up = z3.And(z3.UGE(e, 65), z3.ULE(e, 70), base == 16)
            if bool(sym.sbool(z3.Or(dig, low, up))):
                d = sym.mk(z3.If(dig, e - 48, z3.If(low, e - 87, e - 55)), 0, base - 1)
                r = r * base + d
                continue
        if v >= 48 and v <= 57:
            d = v - 48
        elif base == 16 and v >= 97 and v <= 102:
            d = v - 87
        elif base == 16 and v >= 65 and v <= 70:
            d = v - 55
        elif v == 95 or v == 32 or (v >= 9 and v <= 13) or v == 43 or v == 45:
            raise sym.Cut('number with signs, spaces or underscores')
        else:
            raise ValueError('invalid literal for int()')
        r = r * base + d
    return -r if neg else r


class XDictMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, dict)

    def __subclasscheck__(cls, c):
        return isinstance(c, type) and (c is cls or issubclass(c, dict))

    def __getattr__(cls, n):
        return getattr(dict, n)


class XDict(metaclass=XDictMeta):
    def __new__(cls, *a, **k):
        return SDict(*a, **k)


class XBool(metaclass=shadow('bool', bool, (bool, SBool))):
    def __new__(cls, x=False):
        return bool(x)


class XBytes(metaclass=shadow('bytes', bytes, (bytes, SBytes))):
    def __new__(cls, x=b'', *a, **k):
        if cls is not XBytes:
            return bytes.__new__(cls, x, *a, **k)
        if isinstance(x, SBytes):
            return x
        if isinstance(x, SByteArray):
            return mkbytes(x.b)
        if isinstance(x, SStr):
            return x.encode(*a)
        if isinstance(x, SInt):
            return bytes(E.concretize(x))
        if isinstance(x, (bytes, bytearray, int, str)) and not hasattr(type(x), '__bytes__'):
            return bytes(x, *a, **k)
        f = getattr(type(x), '__bytes__', None)
        if f is not None and not isinstance(x, bytes):
            return f(x)
        if isinstance(x, bytes):
            return x
        return mkbytes([unval(v) for v in x])


class XByteArray(metaclass=shadow('bytearray', bytearray, (bytearray, SByteArray))):
    def __new__(cls, x=b'', *a):
        if isinstance(x, (SBytes, SByteArray)):
            return SByteArray(x.b)
        if isinstance(x, SInt):
            x = E.concretize(x)
        if isinstance(x, int):
            return SByteArray([0] * x)
        if isinstance(x, (str, SStr)):
            return SByteArray(elems(x.encode(*a)))
        return SByteArray([unval(v) for v in x])


class XStr(metaclass=shadow('str', str, (str, SStr))):
    def __new__(cls, x='', *a):
        if cls is not XStr:
            return str.__new__(cls, x, *a)
        return text(x, *a)


def text(x, *a):
    if isinstance(x, SStr):
        return x
    if isinstance(x, (SBytes, SByteArray)) and a:
        return x.decode(*a)
    f = getattr(type(x), '__str__', None)
    if type(f).__name__ == 'function':
        return f(x)
    return str(x, *a)


def fstring(*parts):
    out = []
    for p in parts:
        if isinstance(p, tuple):
            v, conv, spec = p
            if isinstance(v, SStr) and conv != 114 and not spec:
                out += strel(v)
                continue
            if conv == 114:
                p = repr(v)
            elif spec:
                p = format(v, spec)
            else:
                p = text(v)
        out += strel(p)
    return mkstr(out)


def getitem(o, i):
    if isinstance(i, SInt) and isinstance(o, (list, tuple, bytes, str, bytearray)):
        return lookup(o, i)
    return o[i]


def method(o, name, *a, **k):
    """Methods of constants that are given unknown values."""
    if name == 'format':
        return xformat(o, *a) if isinstance(o, str) else o.format(*a)
    if name == 'join' and isinstance(o, (str, SStr)):
        items = list(a[0])
        out = []
        for n, x in enumerate(items):
            if not isinstance(x, (str, SStr)):
                raise TypeError('sequence item %d: expected str instance' % n)
            if n:
                out += strel(o)
            out += strel(x)
        return mkstr(out)
    if name == 'join' and isinstance(o, (bytes, SBytes)):
        out = []
        for n, x in enumerate(a[0]):
            if n:
                out += elems(o)
            out += elems(x)
        return mkbytes(out)
    if isinstance(o, str) and any(isinstance(x, SStr) for x in a):
        return getattr(SStr(strel(o)), name)(*a, **k)
    if isinstance(o, bytes) and any(isinstance(x, SBytes) for x in a):
        return getattr(SBytes(list(o)), name)(*a, **k)
    return getattr(o, name)(*a, **k)


def unknown(k):
    if isinstance(k, (SStr, SBytes, SInt)):
        return True
    if isinstance(k, tuple):
        return any(unknown(x) for x in k)
    d = getattr(k, '__dict__', None)
    return type(d) is dict and not isinstance(k, type) and any(isinstance(x, (SStr, SBytes, SInt)) for x in d.values())


class SDict(dict):
    """A dictionary whose keys may be unknown: then they are compared one by one."""
    _l = None

    def __init__(self, *a, **k):
        dict.__init__(self)
        self.update(*a, **k)

    def _open(self):
        if self._l is None:
            self._l = [[k, v] for k, v in dict.items(self)]
            dict.clear(self)

    def _entry(self, k):
        """None in concrete mode with a known key."""
        if unknown(k):
            self._open()
        for e in self._l:
            if type(e[0]) is type(k) or (isinstance(e[0], (str, SStr)) and isinstance(k, (str, SStr))) or (isinstance(e[0], (bytes, SBytes)) and isinstance(k, (bytes, SBytes))) \
                    or not isinstance(k, (str, SStr, bytes, SBytes)):
                if e[0] == k:
                    return e
        return None

    def _plain(self, k):
        return self._l is None and not unknown(k)

    def __getitem__(self, k):
        if self._plain(k):
            return dict.__getitem__(self, k)
        e = self._entry(k)
        if e is None:
            raise KeyError(k)
        return e[1]

    def __setitem__(self, k, v):
        if self._plain(k):
            return dict.__setitem__(self, k, v)
        e = self._entry(k)
        if e is None:
            self._l.append([k, v])
        else:
            e[1] = v

    def __delitem__(self, k):
        if self._plain(k):
            return dict.__delitem__(self, k)
        e = self._entry(k)
        if e is None:
            raise KeyError(k)
        self._l = [x for x in self._l if x is not e]

    def __contains__(self, k):
        if self._plain(k):
            return dict.__contains__(self, k)
        return self._entry(k) is not None

    def get(self, k, d=None):
        return self[k] if k in self else d

    def setdefault(self, k, d=None):
        if k not in self:
            self[k] = d
        return self[k]

    def pop(self, k, *d):
        if k in self:
            v = self[k]
            del self[k]
            return v
        if d:
            return d[0]
        raise KeyError(k)

    def keys(self):
        return dict.keys(self) if self._l is None else [e[0] for e in self._l]

    def values(self):
        return dict.values(self) if self._l is None else [e[1] for e in self._l]

    def items(self):
        return dict.items(self) if self._l is None else [(e[0], e[1]) for e in self._l]

    def __iter__(self):
        return dict.__iter__(self) if self._l is None else iter([e[0] for e in self._l])

    def __len__(self):
        return dict.__len__(self) if self._l is None else len(self._l)

    def __bool__(self):
        return len(self) > 0

    def clear(self):
        dict.clear(self)
        self._l = None

    def copy(self):
        return SDict(self.items())

    def update(self, *a, **k):
        for x in a:
            for y, z in (x.items() if hasattr(x, 'items') else x):
                self[y] = z
        for y in k:
            self[y] = k[y]

    def __eq__(self, o):
        if self._l is None and getattr(o, '_l', None) is None:
            return dict.__eq__(self, o)
        return len(self) == len(o) and all(k in o and o[k] == v for k, v in self.items())

    def __ne__(self, o):
        return not self == o

    __hash__ = None


class SSet:
    """A set whose members may be unknown: they are compared one by one."""

    def __init__(self, it=()):
        self._l = []
        for x in it:
            self.add(x)

    def _has(self, x):
        for y in self._l:
            if bool(x == y):
                return True
        return False

    def add(self, x):
        if not unknown(x):
            hash(x)
        if not self._has(x):
            self._l.append(x)

    def discard(self, x):
        for y in self._l:
            if bool(x == y):
                self._l = [z for z in self._l if z is not y]
                return

    def remove(self, x):
        if not self._has(x):
            raise KeyError(x)
        self.discard(x)

    def pop(self):
        if not self._l:
            raise KeyError('pop from an empty set')
        return self._l.pop()

    def update(self, *its):
        for it in its:
            for x in it:
                self.add(x)

    def clear(self):
        self._l = []

    def copy(self):
        return SSet(self._l)

    def union(self, *its):
        r = self.copy()
        r.update(*its)
        return r

    def intersection(self, o):
        o = SSet(o)
        return SSet([x for x in self._l if o._has(x)])

    def difference(self, o):
        o = SSet(o)
        return SSet([x for x in self._l if not o._has(x)])

    def issubset(self, o):
        o = SSet(o)
        return all(o._has(x) for x in self._l)

    def issuperset(self, o):
        return SSet(o).issubset(self)

    def isdisjoint(self, o):
        return len(self.intersection(o)) == 0

    def __contains__(self, x):
        return self._has(x)

    def __iter__(self):
        return iter(list(self._l))

    def __len__(self):
        return len(self._l)

    def __eq__(self, o):
        return isinstance(o, (SSet, set, frozenset)) and len(self) == len(o) and self.issubset(o)

    def __ne__(self, o):
        return not self == o

    __hash__ = None
    __or__, __and__, __sub__, __le__, __ge__ = union, intersection, difference, issubset, issuperset


class XSetMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (set, frozenset, SSet))

    def __getattr__(cls, n):
        return getattr(SSet, n)


class XSet(metaclass=XSetMeta):
    def __new__(cls, it=()):
        return SSet(it)


def percent(a, b):
    """a % b, which may be a text with unknown values."""
    if isinstance(a, (str, SStr)):
        args = b if isinstance(b, tuple) else (b,)
        if isinstance(a, SStr) or any(isinstance(x, (SStr, SInt, SBool, SBytes)) or type(x).__str__ is not object.__str__ and getattr(type(x), '__module__', '').split('.')[0] in ('pyscore', 'iconservice', 'harness') for x in args):
            if isinstance(a, SStr):
                raise sym.Unsupported('unknown format')
            out, i, n = [], 0, 0
            while i < len(a):
                if a[i] != '%':
                    out.append(ord(a[i]))
                    i += 1
                    continue
                c = a[i + 1:i + 2]
                i += 2
                if c == '%':
                    out.append(37)
                elif c in ('s', 'd', 'x') and n < len(args):
                    v = args[n]
                    n += 1
                    if c == 'x':
                        v = mkstr(strel(xhex(v))[2:]) if bool(v >= 0) else '%x' % v
                    out += strel(text(v))
                else:
                    raise sym.Unsupported('format')
            if n != len(args):
                raise TypeError('not all arguments converted during string formatting')
            return mkstr(out)
    return a % b


def xformat(o, *a):
    """str.format with plain fields."""
    if not isinstance(o, str) or not all(f in ('{}', '{{', '}}') for f in __import__('re').findall(r'\{\{|\}\}|\{[^}]*\}', o)):
        return o.format(*a)
    out, n = [], 0
    for part in __import__('re').split(r'(\{\{|\}\}|\{\})', o):
        if part == '{}':
            out += strel(text(a[n]))
            n += 1
        elif part in ('{{', '}}'):
            out.append(ord(part[0]))
        else:
            out += strel(part)
    return mkstr(out)


METHODS = {'join', 'startswith', 'endswith', 'split', 'replace', 'find', 'rfind', 'index', 'count', 'partition', 'format'}


def xord(c):
    return val(c.b[0]) if isinstance(c, SStr) and len(c) == 1 else ord(c)


def xchr(n):
    if isinstance(n, SInt):
        if n.hi > 127 and n > 127:
            raise sym.Cut('text of other than ASCII characters')
        return mkstr([unval(n)])
    return chr(n)


def engine_exc():
    e = sys.exc_info()[1]
    while e is not None:
        if isinstance(e, Abort) or isinstance(e, (KeyboardInterrupt, MemoryError)):
            raise e
        e = None


def base(c):
    return {XInt: int, XBytes: bytes, XStr: str, XBool: bool, XByteArray: bytearray, XDict: dict}.get(c, c)


def entered(name):
    E.functions.add(name)
    E.tick()


class Rewrite(ast.NodeTransformer):
    def __init__(self, mod):
        self.path = [mod]

    def call(self, f, *a):
        return ast.Call(func=ast.Name(id=f, ctx=ast.Load()), args=list(a), keywords=[])

    def visit_JoinedStr(self, n):
        self.generic_visit(n)
        args = []
        for v in n.values:
            if isinstance(v, ast.FormattedValue):
                spec = v.format_spec if v.format_spec is not None else ast.Constant(value='')
                args.append(ast.Tuple(elts=[v.value, ast.Constant(value=v.conversion), spec], ctx=ast.Load()))
            else:
                args.append(v)
        return ast.copy_location(self.call('__pe_f__', *args), n)

    def visit_Subscript(self, n):
        self.generic_visit(n)
        if isinstance(n.ctx, ast.Load) and not isinstance(n.slice, (ast.Slice, ast.Constant)):
            return ast.copy_location(self.call('__pe_get__', n.value, n.slice), n)
        return n

    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1 and isinstance(n.ops[0], (ast.Is, ast.IsNot)):
            r = self.call('__pe_is__', n.left, n.comparators[0])
            if isinstance(n.ops[0], ast.IsNot):
                r = ast.UnaryOp(op=ast.Not(), operand=r)
            return ast.copy_location(r, n)
        if len(n.ops) == 1 and isinstance(n.ops[0], (ast.In, ast.NotIn)):
            r = self.call('__pe_in__', n.left, n.comparators[0])
            if isinstance(n.ops[0], ast.NotIn):
                r = ast.UnaryOp(op=ast.Not(), operand=r)
            return ast.copy_location(r, n)
        return n

    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Mod):
            return ast.copy_location(self.call('__pe_mod__', n.left, n.right), n)
        return n

    def visit_Set(self, n):
        self.generic_visit(n)
        return ast.copy_location(self.call('__pe_set__', ast.List(elts=n.elts, ctx=ast.Load())), n)

    def visit_SetComp(self, n):
        self.generic_visit(n)
        return ast.copy_location(self.call('__pe_set__', ast.ListComp(elt=n.elt, generators=n.generators)), n)

    def visit_Dict(self, n):
        self.generic_visit(n)
        if any(k is None for k in n.keys):
            return n
        pairs = [ast.Tuple(elts=[k, v], ctx=ast.Load()) for k, v in zip(n.keys, n.values)]
        return ast.copy_location(self.call('__pe_dict__', ast.List(elts=pairs, ctx=ast.Load())), n)

    def visit_DictComp(self, n):
        self.generic_visit(n)
        pair = ast.Tuple(elts=[n.key, n.value], ctx=ast.Load())
        return ast.copy_location(self.call('__pe_dict__', ast.ListComp(elt=pair, generators=n.generators)), n)

    def visit_AnnAssign(self, n):
        n.annotation = ast.Constant(value=None)
        self.generic_visit(n)
        return n

    def visit_arg(self, n):
        n.annotation = None
        return n

    def visit_ExceptHandler(self, n):
        self.generic_visit(n)
        n.body.insert(0, ast.Expr(self.call('__pe_exc__')))
        return n

    def loop(self, n):
        self.generic_visit(n)
        n.body.insert(0, ast.Expr(self.call('__pe_tick__')))
        return n

    visit_For = visit_While = loop

    def visit_ClassDef(self, n):
        self.path.append(n.name)
        self.generic_visit(n)
        self.path.pop()
        n.bases = [self.call('__pe_base__', b) for b in n.bases]
        return n

    def visit_FunctionDef(self, n):
        self.path.append(n.name)
        self.generic_visit(n)
        name = '.'.join(self.path)
        self.path.pop()
        n.returns = None
        i = 1 if ast.get_docstring(n) is not None else 0
        n.body.insert(i, ast.Expr(self.call('__pe_fn__', ast.Constant(value=name))))
        return n

    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Attribute) and n.func.attr in METHODS and not any(isinstance(a, ast.Starred) for a in n.args) and not n.keywords \
                and not (isinstance(n.func.value, ast.Call) and isinstance(n.func.value.func, ast.Name) and n.func.value.func.id == 'super'):
            return ast.copy_location(self.call('__pe_m__', n.func.value, ast.Constant(value=n.func.attr), *n.args), n)
        return n


def is_(a, b):
    for x, y in ((a, b), (b, a)):
        if isinstance(x, SBool) and (y is True or y is False):
            return bool(x) is y
        if isinstance(x, SInt) and isinstance(y, (int, SInt)) and not isinstance(y, bool):
            if not bool(x == y):
                return False
            if not bool(x >= -5) or not bool(x <= 256):
                raise sym.Cut('identity of large numbers')
            return True
    return a is b


def in_(x, c):
    if isinstance(x, SStr) and isinstance(c, str):
        if len(x) == 0:
            return True
        for i in range(len(c) - len(x) + 1):
            if bool(x == c[i:i + len(x)]):
                return True
        return False
    if isinstance(c, (bytes, bytearray)) and isinstance(x, SInt):
        for b in c:
            if bool(x == b):
                return True
        return False
    if isinstance(c, (bytes, bytearray)) and isinstance(x, SBytes):
        if len(x) == 0:
            return True
        for i in range(len(c) - len(x) + 1):
            if bool(x == bytes(c[i:i + len(x)])):
                return True
        return False
    if isinstance(x, (SStr, SBytes, SInt)) and isinstance(c, (set, frozenset)) or isinstance(c, (set, frozenset)) and any(isinstance(y, (SStr, SBytes, SInt)) for y in c):
        for y in c:
            if bool(x == y):
                return True
        return False
    return x in c


def xhex(x):
    if not isinstance(x, SInt):
        return hex(x)
    pre, n = '0x', 1
    if bool(x < 0):
        x, pre = -x, '-0x'
    while bool(x >= 1 << 4 * n):
        n += 1
    out = []
    for i in reversed(range(n)):
        d = (x >> 4 * i) & 15
        if isinstance(d, SInt):
            e = sym.ext(d, 8)
            e = z3.simplify(z3.If(z3.ULT(e, 10), e + 48, e + 87))
            if z3.is_bv_value(e):
                e = e.as_long()
            out.append(e)
        else:
            out.append(ord('0123456789abcdef'[d]))
    return mkstr([ord(c) for c in pre] + out)


GLOBALS = {
    '__pe_is__': is_, '__pe_in__': in_, '__pe_mod__': percent, '__pe_set__': SSet, 'set': XSet, 'frozenset': XSet, 'hex': xhex,
    'int': XInt, 'bytes': XBytes, 'str': XStr, 'bool': XBool, 'bytearray': XByteArray, 'dict': XDict, 'ord': xord, 'chr': xchr,
    'print': lambda *a, **k: None, '__pe_f__': fstring, '__pe_get__': getitem, '__pe_exc__': engine_exc,
    '__pe_tick__': lambda: E.tick(), '__pe_base__': base, '__pe_fn__': entered, '__pe_m__': method, '__pe_dict__': SDict,
}


class Loader(importlib.abc.Loader):
    def __init__(self, path, rewrite):
        self.path, self.rewrite = path, rewrite

    def create_module(self, spec):
        return None

    def exec_module(self, m):
        src = open(self.path, encoding='utf-8').read()
        tree = ast.parse(src, self.path)
        if self.rewrite:
            tree = ast.fix_missing_locations(Rewrite(m.__name__).visit(tree))
            m.__dict__.update(GLOBALS)
        exec(compile(tree, self.path, 'exec'), m.__dict__)


class Finder(importlib.abc.MetaPathFinder):
    def __init__(self, repo, rewrite):
        self.roots = {'pyscore': os.path.join(repo, 'pyscore'), 'iconservice': os.path.join(HERE, 'stubs', 'iconservice.py'),
                      'harness': os.path.join(HERE, 'harness')}
        self.rewrite = rewrite

    def find_spec(self, name, path, target=None):
        parts = name.split('.')
        if parts[0] not in self.roots:
            return None
        p = self.roots[parts[0]]
        if len(parts) > 1:
            p = os.path.join(p, *parts[1:])
        if os.path.isdir(p):
            init = os.path.join(p, '__init__.py')
            if not os.path.exists(init):
                init = os.devnull
            spec = importlib.util.spec_from_loader(name, Loader(init, self.rewrite), is_package=True)
            spec.submodule_search_locations = [p]
            return spec
        if not p.endswith('.py'):
            p += '.py'
        if not os.path.exists(p):
            return None
        return importlib.util.spec_from_loader(name, Loader(p, self.rewrite))


def install(repo, symbolic):
    global SYMBOLIC
    SYMBOLIC = symbolic
    sys.dont_write_bytecode = True
    sys.meta_path.insert(0, Finder(repo, symbolic))
    import pe
    pe.setup(symbolic)
