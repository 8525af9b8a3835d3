"""Symbolic values and path exploration for the Python contracts.

The real functions of /repo/pyscore run on these values: every branch that
depends on one asks the solver which sides are possible, every assertion is a
query over all values that take the path.
"""
import builtins
import hashlib
import sys
import time

import z3


class Abort(BaseException):
    """Ends a path; never visible to the code under test."""


class Cut(Abort):
    pass


class Unsupported(Abort):
    pass


class Violation(Abort):
    def __init__(self, msg, inputs, real):
        self.msg, self.inputs, self.real = msg, inputs, real


class Engine:
    """State of the path being executed."""

    def __init__(self):
        self.tier = 'quick'
        self.stats = dict(queries=0, solver_s=0.0, asserts=0, unknown=0)
        self.functions = set()
        self.max_ticks = 400000
        self.timeout_ms = 60000
        self.reset([])

    def reset(self, prefix):
        self.solver = z3.SolverFor('QF_BV')
        self.solver.set('timeout', self.timeout_ms)
        self.prefix, self.pos = prefix, 0
        self.taken = []
        self.alts = []
        self.model = None
        self.inputs = []  # (name, value, signed)
        self.counts = {}
        self.hashes = []  # (elems, digest elems or None if concrete, digest)
        self.ufs = {}
        self.reached = set()
        self.ticks = 0
        self.bounds = set()

    # -- solver
    def check(self, *extra):
        t = time.time()
        self.solver.push()
        if extra:
            self.solver.add(*extra)
        r = self.solver.check()
        m = self.solver.model() if r == z3.sat else None
        self.solver.pop()
        self.stats['queries'] += 1
        self.stats['solver_s'] += time.time() - t
        if r == z3.unknown:
            self.stats['unknown'] += 1
        return r, m

    def cur_model(self):
        if self.model is None:
            r, m = self.check()
            if r == z3.unsat:
                raise Cut('infeasible')
            if m is None:
                raise Unsupported('solver gave up')
            self.model = m
        return self.model

    def add(self, c):
        self.solver.add(c)
        if self.model is not None and not z3.is_true(self.model.eval(c, model_completion=True)):
            self.model = None

    def branch(self, cond, tag=None):
        """Takes one side of cond; the other one is explored later."""
        if tag is None:
            cond = z3.simplify(cond)
            if z3.is_true(cond):
                return True
            if z3.is_false(cond):
                return False
        self.ticks += 1
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]
            self.pos += 1
            side = d[1]
            self.taken.append(d)
            self.add(cond if side else z3.Not(cond))
            return side
        m = self.cur_model()
        side = z3.is_true(m.eval(cond, model_completion=True))
        other = z3.Not(cond) if side else cond
        r, _ = self.check(other)
        if r != z3.unsat:
            self.alts.append(self.taken + [(tag, not side)])
        self.taken.append((tag, side))
        self.pos += 1
        self.add(cond if side else z3.Not(cond))
        return side

    def concretize(self, x):
        """The value of x, one path for each it can have."""
        n = 0
        while True:
            if self.pos < len(self.prefix):
                v = self.prefix[self.pos][0]
            else:
                m = self.cur_model()
                v = m.eval(x.e, model_completion=True).as_signed_long()
            w = x.e.size()
            if self.branch(x.e == z3.BitVecVal(v, w), tag=v):
                return v
            n += 1
            if n > 600:
                raise Unsupported('too many values')

    # -- inputs
    def name(self, n):
        k = self.counts.get(n, 0)
        self.counts[n] = k + 1
        return n if k == 0 else '%s#%d' % (n, k)

    def byte(self, n):
        n = self.name(n)
        v = z3.BitVec(n, 8)
        self.inputs.append((n, v, False))
        return v

    def int(self, n, lo, hi):
        n = self.name(n)
        if lo == hi:
            self.inputs.append((n, lo, False))
            return lo
        w = need(lo, hi)
        v = z3.BitVec(n, w)
        self.inputs.append((n, v, True))
        if lo != -(1 << (w - 1)):
            self.add(v >= z3.BitVecVal(lo, w))
        if hi != (1 << (w - 1)) - 1:
            self.add(v <= z3.BitVecVal(hi, w))
        return SInt(v, lo, hi)

    def choose(self, n, lo, hi):
        v = self.int(n, lo, hi)
        return v if isinstance(v, builtins.int) else self.concretize(v)

    # -- hashing
    def digest(self, data):
        el = elems(data)
        conc = all(isinstance(x, builtins.int) for x in el)
        if conc:
            out = list(hashlib.sha3_256(bytes(el)).digest())
        else:
            h = z3.BitVec(self.name('!hash'), 256)
            out = [z3.Extract(255 - 8 * i, 248 - 8 * i, h) for i in range(32)]
        for el2, out2, conc2 in self.hashes:
            if conc and conc2:
                continue
            oeq = eq_elems(out, out2)
            if len(el) != len(el2):
                if not isinstance(oeq, bool):
                    self.add(z3.Not(oeq))
            else:
                ieq = eq_elems(el, el2)
                if ieq is True:
                    return SBytes(out2) if not conc2 else bytes(out2)
                if ieq is False:
                    ieq = z3.BoolVal(False)
                self.add(ieq == zb(oeq))
        self.hashes.append((el, out, conc))
        return mkbytes(out)

    def uf(self, name, args, size):
        """An unknown function of bytes: equal arguments, equal results."""
        out = [self.byte(name) for _ in range(size)]
        key = [elems(a) for a in args]
        for key2, out2 in self.ufs.setdefault(name, []):
            c = [eq_elems(a, b) if len(a) == len(b) else False for a, b in zip(key, key2)]
            if any(x is False for x in c):
                continue
            c = [x for x in c if x is not True]
            self.add(z3.Implies(z3.And(c) if c else z3.BoolVal(True), zb(eq_elems(out, out2))))
        self.ufs[name].append((key, out))
        return SBytes(out)

    # -- verdicts
    def realise(self, *extra):
        """A model in which the digests are the real ones, or any model."""
        r, m = self.check(*extra)
        if r != z3.sat:
            return r, None, False
        sym = [(el, out) for el, out, conc in self.hashes if not conc]
        fix = list(extra)
        m2 = m
        for el, out in sym:
            iv = [x if isinstance(x, builtins.int) else m2.eval(x, model_completion=True).as_long() for x in el]
            dg = hashlib.sha3_256(bytes(iv)).digest()
            fix += [x == v for x, v in zip(el, iv) if not isinstance(x, builtins.int)]
            fix += [x == v for x, v in zip(out, dg)]
            r2, m3 = self.check(*fix)
            if m3 is None:
                return r, m, False
            m2 = m3
        return r, m2, True

    def values(self, m):
        d = {}
        for n, v, signed in self.inputs:
            if isinstance(v, builtins.int):
                d[n] = v
            else:
                x = m.eval(v, model_completion=True)
                d[n] = x.as_signed_long() if signed else x.as_long()
        return d

    def assert_(self, cond, msg):
        self.stats['asserts'] += 1
        if isinstance(cond, SBool):
            neg = z3.simplify(z3.Not(cond.e))
            if z3.is_false(neg):
                return
            r, m, real = self.realise(neg)
            if r == z3.unsat:
                self.add(cond.e)
                return
            if r == z3.unknown:
                raise Unsupported('solver gave up on: ' + msg)
            raise Violation(msg, self.values(m), real)
        if not cond:
            self.fail(msg)

    def fail(self, msg):
        r, m, real = self.realise()
        if r == z3.unsat:
            raise Cut('infeasible')
        if m is None:
            raise Unsupported('solver gave up on: ' + msg)
        raise Violation(msg, self.values(m), real)

    def assume(self, cond):
        if isinstance(cond, SBool):
            self.add(cond.e)
            if self.pos >= len(self.prefix):
                self.cur_model()
            return
        if not cond:
            raise Cut('assume')

    def tick(self):
        self.ticks += 1
        if self.ticks > self.max_ticks:
            self.fail('the computation ends')


E = Engine()


def zb(x):
    return z3.BoolVal(x) if isinstance(x, bool) else x


def need(lo, hi):
    return max(builtins.int(lo if lo >= 0 else -lo - 1).bit_length(), builtins.int(hi if hi >= 0 else -hi - 1).bit_length()) + 1


MAXW = 600


def mk(e, lo, hi):
    if lo == hi:
        return lo
    w = need(lo, hi)
    if w > MAXW:
        raise Unsupported('number too large')
    s = e.size()
    if s > w:
        e = z3.Extract(w - 1, 0, e)
    elif s < w:
        e = z3.SignExt(w - s, e)
    return SInt(z3.simplify(e), lo, hi)


def rng(x):
    return (x.lo, x.hi) if isinstance(x, SInt) else (x, x)


def ext(x, w):
    if isinstance(x, SInt):
        s = x.e.size()
        return x.e if s == w else z3.SignExt(w - s, x.e)
    return z3.BitVecVal(x, w)


def num(x):
    """x as a number of this engine, or None."""
    if isinstance(x, SInt):
        return x
    if isinstance(x, SBool):
        return SInt(z3.If(x.e, z3.BitVecVal(1, 2), z3.BitVecVal(0, 2)), 0, 1)
    if isinstance(x, builtins.int):
        return builtins.int(x)
    return None


def sbool(e):
    e = z3.simplify(e)
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return SBool(e)


class SBool:
    __slots__ = ('e',)

    def __init__(self, e):
        self.e = e

    def __bool__(self):
        return E.branch(self.e)

    def __eq__(self, o):
        if isinstance(o, (bool, SBool)):
            return sbool(self.e == zb(o.e if isinstance(o, SBool) else o))
        n = num(o)
        return NotImplemented if n is None else num(self) == n

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else not_(r)

    def __hash__(self):
        return hash(bool(self))

    def _l(op):
        def f(self, o):
            if isinstance(o, (bool, SBool)):
                return sbool(op(self.e, o.e if isinstance(o, SBool) else z3.BoolVal(o)))
            return NotImplemented
        return f

    __and__ = __rand__ = _l(lambda a, b: z3.And(a, b))
    __or__ = __ror__ = _l(lambda a, b: z3.Or(a, b))
    __xor__ = __rxor__ = _l(lambda a, b: z3.Xor(a, b))

    def __index__(self):
        return 1 if self else 0

    __int__ = __index__

    def _n(name):
        def f(self, *a):
            return getattr(num(self), name)(*a)
        return f

    for _x in ('add', 'radd', 'sub', 'rsub', 'mul', 'rmul', 'lt', 'le', 'gt', 'ge', 'neg', 'lshift', 'rlshift'):
        locals()['__%s__' % _x] = _n('__%s__' % _x)
    bit_length = _n('bit_length')
    to_bytes = _n('to_bytes')

    def __repr__(self):
        return '<bool>'


def not_(x):
    if isinstance(x, SBool):
        return sbool(z3.Not(x.e))
    return not x


def pow2(x):
    return x > 0 and x & (x - 1) == 0


class SInt:
    __slots__ = ('e', 'lo', 'hi')

    def __init__(self, e, lo, hi):
        self.e, self.lo, self.hi = e, lo, hi

    def _bin(calc):
        def f(self, o):
            n = num(o)
            if n is None and isinstance(o, float):
                raise Unsupported('float arithmetic')
            return NotImplemented if n is None else calc(self, n)

        def r(self, o):
            n = num(o)
            if n is None and isinstance(o, float):
                raise Unsupported('float arithmetic')
            return NotImplemented if n is None else calc(n, self)
        return f, r

    def _add(a, b):
        (al, ah), (bl, bh) = rng(a), rng(b)
        lo, hi = al + bl, ah + bh
        w = max(need(lo, hi), need(al, ah), need(bl, bh))
        return mk(ext(a, w) + ext(b, w), lo, hi)

    def _sub(a, b):
        (al, ah), (bl, bh) = rng(a), rng(b)
        lo, hi = al - bh, ah - bl
        w = max(need(lo, hi), need(al, ah), need(bl, bh))
        return mk(ext(a, w) - ext(b, w), lo, hi)

    def _mul(a, b):
        (al, ah), (bl, bh) = rng(a), rng(b)
        c = [al * bl, al * bh, ah * bl, ah * bh]
        lo, hi = min(c), max(c)
        w = max(need(lo, hi), need(al, ah), need(bl, bh))
        return mk(ext(a, w) * ext(b, w), lo, hi)

    def _and(a, b):
        (al, ah), (bl, bh) = rng(a), rng(b)
        w = max(need(al, ah), need(bl, bh))
        lo, hi = -(1 << (w - 1)), (1 << (w - 1)) - 1
        if al >= 0 and bl >= 0:
            lo, hi = 0, min(ah, bh)
        elif al >= 0:
            lo, hi = 0, ah
        elif bl >= 0:
            lo, hi = 0, bh
        return mk(ext(a, w) & ext(b, w), lo, hi)

    def _orx(op):
        def f(a, b):
            (al, ah), (bl, bh) = rng(a), rng(b)
            w = max(need(al, ah), need(bl, bh))
            lo, hi = -(1 << (w - 1)), (1 << (w - 1)) - 1
            if al >= 0 and bl >= 0:
                lo = 0
            return mk(op(ext(a, w), ext(b, w)), lo, hi)
        return f

    def _shl(a, b):
        if isinstance(b, SInt):
            b = E.concretize(b)
        if b < 0:
            raise ValueError('negative shift count')
        return SInt._mul(a, 1 << b) if isinstance(a, SInt) else a << b

    def _shr(a, b):
        if isinstance(b, SInt):
            b = E.concretize(b)
        if b < 0:
            raise ValueError('negative shift count')
        if not isinstance(a, SInt):
            return a >> b
        lo, hi = a.lo >> b, a.hi >> b
        if lo == hi:
            return lo
        return mk(a.e >> z3.BitVecVal(b, a.e.size()), lo, hi)

    def _mod(a, b):
        if isinstance(b, SInt):
            b = E.concretize(b)
        if b == 0:
            raise ZeroDivisionError('integer division or modulo by zero')
        if not isinstance(a, SInt):
            return a % b
        if b < 0:
            raise Unsupported('negative divisor')
        if a.lo >= 0 and a.hi < b:
            return a
        if pow2(b):
            return SInt._and(a, b - 1) if b > 1 else 0
        w = max(a.e.size(), need(0, b))
        return mk(ext(a, w) % z3.BitVecVal(b, w), 0, b - 1)

    def _div(a, b):
        if isinstance(b, SInt):
            b = E.concretize(b)
        if b == 0:
            raise ZeroDivisionError('integer division or modulo by zero')
        if not isinstance(a, SInt):
            return a // b
        if b < 0:
            return SInt._div(-a, -b)
        if pow2(b):
            return SInt._shr(a, b.bit_length() - 1)
        m = SInt._mod(a, b)
        x = SInt._sub(a, m)
        if not isinstance(x, SInt):
            return x // b
        lo, hi = a.lo // b, a.hi // b
        w = max(x.e.size(), need(0, b))
        return mk(ext(x, w) / z3.BitVecVal(b, w), lo, hi)

    def _pow(a, b):
        if isinstance(b, SInt):
            b = E.concretize(b)
        if isinstance(a, SInt):
            r = 1
            for _ in range(b):
                r = r * a
            return r
        return a ** b

    def _tdiv(a, b):
        if isinstance(b, SInt):
            b = E.concretize(b)
        if b == 0:
            raise ZeroDivisionError('division by zero')
        if not isinstance(a, SInt):
            return a / b
        return SRatio(a if b > 0 else -a, abs(b))

    __add__, __radd__ = _bin(_add)
    __sub__, __rsub__ = _bin(_sub)
    __mul__, __rmul__ = _bin(_mul)
    __and__, __rand__ = _bin(_and)
    __or__, __ror__ = _bin(_orx(lambda x, y: x | y))
    __xor__, __rxor__ = _bin(_orx(lambda x, y: x ^ y))
    __lshift__, __rlshift__ = _bin(_shl)
    __rshift__, __rrshift__ = _bin(_shr)
    __mod__, __rmod__ = _bin(_mod)
    __floordiv__, __rfloordiv__ = _bin(_div)
    __truediv__, __rtruediv__ = _bin(_tdiv)
    _truediv = __truediv__

    def __divmod__(self, o):
        return self // o, self % o

    def __rdivmod__(self, o):
        return o // self, o % self

    def __floor__(self):
        return self

    __ceil__ = __trunc__ = __floor__

    def __round__(self, *a):
        if a:
            raise Unsupported('rounding to digits')
        return self

    def __truediv__(self, o):
        if isinstance(o, float):
            # exact while the numerator stays small, which SRatio checks
            p, q = o.as_integer_ratio()
            return SInt._tdiv(self * q, p)
        return self._truediv(o)

    def __pow__(self, o, m=None):
        n = num(o)
        return NotImplemented if n is None or m is not None else SInt._pow(self, n)

    def __rpow__(self, o, m=None):
        n = num(o)
        return NotImplemented if n is None or m is not None else SInt._pow(n, self)

    def __neg__(self):
        return SInt._sub(0, self)

    def __pos__(self):
        return self

    def __invert__(self):
        return SInt._sub(-1, self)

    def __abs__(self):
        if self.lo >= 0:
            return self
        n = -self
        hi = max(-self.lo, self.hi)
        w = need(0, hi) + 1
        return mk(z3.If(ext(self, w) < 0, ext(n, w), ext(self, w)), 0, hi)

    def _cmp(op, sure):
        def f(self, o):
            n = num(o)
            if n is None:
                if isinstance(o, SRatio):
                    return NotImplemented
                if isinstance(o, float):
                    raise Unsupported('comparison with float')
                return NotImplemented
            r = sure(rng(self), rng(n))
            if r is not None:
                return r
            w = max(need(*rng(self)), need(*rng(n)))
            return sbool(op(ext(self, w), ext(n, w)))
        return f

    def _sure_lt(a, b):
        return True if a[1] < b[0] else False if a[0] >= b[1] else None

    def _sure_le(a, b):
        return True if a[1] <= b[0] else False if a[0] > b[1] else None

    __lt__ = _cmp(lambda x, y: x < y, _sure_lt)
    __le__ = _cmp(lambda x, y: x <= y, _sure_le)
    __gt__ = _cmp(lambda x, y: x > y, lambda a, b: SInt._sure_lt(b, a))
    __ge__ = _cmp(lambda x, y: x >= y, lambda a, b: SInt._sure_le(b, a))
    __eq__ = _cmp(lambda x, y: x == y, lambda a, b: False if a[1] < b[0] or b[1] < a[0] else None)
    __ne__ = _cmp(lambda x, y: x != y, lambda a, b: True if a[1] < b[0] or b[1] < a[0] else None)

    def __bool__(self):
        return bool(self != 0)

    def __index__(self):
        return E.concretize(self)

    __int__ = __index__

    def __hash__(self):
        return hash(E.concretize(self))

    def bit_length(self):
        a = abs(self)
        if not isinstance(a, SInt):
            return a.bit_length()
        n = a.hi.bit_length()
        w = need(0, n)
        r = z3.BitVecVal(0, w)
        for i in range(n):
            r = z3.If(z3.Extract(i, i, a.e) == 1, z3.BitVecVal(i + 1, w), r)
        return mk(r, a.lo.bit_length() if a.lo > 0 else 0, n)

    def to_bytes(self, length=1, byteorder='big', *, signed=False):
        if isinstance(length, SInt):
            length = E.concretize(length)
        if not signed and self.lo < 0 and self < 0:
            raise OverflowError("can't convert negative int to unsigned")
        lo, hi = (-(1 << (8 * length - 1)), (1 << (8 * length - 1)) - 1) if signed and length else (0, (1 << (8 * length)) - 1)
        if (self.lo < lo and self < lo) or (self.hi > hi and self > hi):
            raise OverflowError('int too big to convert')
        w = max(8 * length, self.e.size())
        e = ext(self, w)
        out = [simp8(z3.Extract(8 * i + 7, 8 * i, e)) for i in range(length)]
        if byteorder == 'big':
            out.reverse()
        return mkbytes(out)

    def __repr__(self):
        return '<int>'

    def __format__(self, spec):
        return '<int>'


def simp8(e):
    e = z3.simplify(e)
    return e.as_long() if z3.is_bv_value(e) else e


class SRatio:
    """The quotient of a number and a positive constant."""
    __slots__ = ('n', 'd')

    def __init__(self, n, d):
        lo, hi = rng(n)
        if max(abs(lo), abs(hi)) >= 1 << 50:
            raise Unsupported('float of a large number')
        self.n, self.d = n, d

    def trunc(self):
        n = self.n
        if not isinstance(n, SInt):
            return builtins.int(n / self.d)
        if n.lo >= 0:
            return n // self.d
        q = abs(n) // self.d
        if n < 0:
            return -q
        return q

    __trunc__ = trunc

    def __floor__(self):
        return self.n // self.d

    def __ceil__(self):
        return -((-self.n) // self.d)

    def __add__(self, o):
        o = num(o)
        return NotImplemented if o is None else SRatio(self.n + o * self.d, self.d)

    __radd__ = __add__

    def __sub__(self, o):
        o = num(o)
        return NotImplemented if o is None else SRatio(self.n - o * self.d, self.d)

    def __rsub__(self, o):
        o = num(o)
        return NotImplemented if o is None else SRatio(o * self.d - self.n, self.d)

    def __floordiv__(self, o):
        if o != 1:
            raise Unsupported('float division')
        return SRatio(self.n // self.d, 1)

    def __mul__(self, o):
        if isinstance(o, (builtins.int, SInt)):
            return SRatio(self.n * o, self.d)
        return NotImplemented

    __rmul__ = __mul__

    def __neg__(self):
        return SRatio(-self.n, self.d)

    def __truediv__(self, o):
        if isinstance(o, builtins.int) and o > 0:
            return SRatio(self.n, self.d * o)
        raise Unsupported('float division')

    def _c(name):
        def f(self, o):
            if isinstance(o, SRatio):
                return getattr(operator, name)(self.n * o.d, o.n * self.d)
            if num(o) is None:
                raise Unsupported('float comparison')
            return getattr(operator, name)(self.n, num(o) * self.d)
        return f

    __lt__, __le__, __gt__, __ge__, __eq__, __ne__ = _c('lt'), _c('le'), _c('gt'), _c('ge'), _c('eq'), _c('ne')
    __hash__ = None

    def __bool__(self):
        return bool(self.n != 0)


import operator  # noqa: E402


# ---- byte strings

def elems(x):
    if isinstance(x, (SBytes, SByteArray)):
        return list(x.b)
    if isinstance(x, SStr):
        return list(x.b)
    return list(x)


def eq_elems(a, b):
    if len(a) != len(b):
        return False
    c = []
    for x, y in zip(a, b):
        if isinstance(x, builtins.int) and isinstance(y, builtins.int):
            if x != y:
                return False
        elif isinstance(x, builtins.int):
            if x > 255:
                return False
            c.append(y == z3.BitVecVal(x, 8))
        elif isinstance(y, builtins.int):
            if y > 255:
                return False
            c.append(x == z3.BitVecVal(y, 8))
        elif not x.eq(y):
            c.append(x == y)
    if not c:
        return True
    e = z3.simplify(z3.And(c))
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return e


def b2(x):
    return x if isinstance(x, bool) else SBool(x)


def val(e):
    return e if isinstance(e, builtins.int) else SInt(z3.simplify(z3.ZeroExt(1, e)), 0, 255)


def unval(v):
    """A number as an element of a byte string."""
    if isinstance(v, (bool, SBool)):
        v = num(v)
    if isinstance(v, SInt):
        if (v.lo < 0 and v < 0) or (v.hi > 255 and v > 255):
            raise ValueError('bytes must be in range(0, 256)')
        return simp8(z3.Extract(7, 0, z3.SignExt(8, v.e)))
    if not isinstance(v, builtins.int):
        raise TypeError("'%s' object cannot be interpreted as an integer" % type(v).__name__)
    if not 0 <= v <= 255:
        raise ValueError('bytes must be in range(0, 256)')
    return v


def mkbytes(el):
    el = list(el)
    if all(isinstance(x, builtins.int) for x in el):
        return bytes(el)
    return SBytes(el)


def fix_slice(s):
    f = lambda x: E.concretize(x) if isinstance(x, SInt) else x
    return slice(f(s.start), f(s.stop), f(s.step))


class _Seq:
    __slots__ = ()

    def __len__(self):
        return len(self.b)

    def _item(self, i):
        return val(self.b[i])

    def __getitem__(self, i):
        if isinstance(i, slice):
            return self._mk(self.b[fix_slice(i)])
        if isinstance(i, SInt):
            return lookup(self, i)
        return self._item(i)

    def __iter__(self):
        return (self._item(i) for i in range(len(self.b)))

    def __eq__(self, o):
        if not self._like(o):
            return NotImplemented
        return b2(eq_elems(self.b, self._el(o)))

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else not_(r)

    def __add__(self, o):
        if not self._like(o):
            return NotImplemented
        return self._mk(list(self.b) + self._el(o))

    def __radd__(self, o):
        if not self._like(o):
            return NotImplemented
        return self._mk(self._el(o) + list(self.b))

    def __mul__(self, n):
        return self._mk(list(self.b) * n)

    __rmul__ = __mul__

    def __hash__(self):
        raise Unsupported('hash of an unknown %s' % type(self).__name__)

    def _lt(a, b, same):
        e = z3.BoolVal(len(a) < len(b) or (same and len(a) == len(b)))
        bv = lambda x: z3.BitVecVal(x, 21) if isinstance(x, builtins.int) else z3.ZeroExt(13, x)
        for x, y in reversed(list(zip(a, b))):
            x, y = bv(x), bv(y)
            e = z3.Or(z3.ULT(x, y), z3.And(x == y, e))
        return sbool(e)

    def _ord(rev, same):
        def f(self, o):
            if not self._like(o):
                return NotImplemented
            a, b = list(self.b), self._el(o)
            return _Seq._lt(b, a, same) if rev else _Seq._lt(a, b, same)
        return f

    __lt__, __le__, __gt__, __ge__ = _ord(False, False), _ord(False, True), _ord(True, False), _ord(True, True)

    def _at(self, i, s):
        c = eq_elems(self.b[i:i + len(s)], s)
        return b2(c)

    def find(self, s, start=0):
        s = self._sub(s)
        for i in range(start, len(self.b) - len(s) + 1):
            if self._at(i, s):
                return i
        return -1

    def rfind(self, s):
        s = self._sub(s)
        for i in range(len(self.b) - len(s), -1, -1):
            if self._at(i, s):
                return i
        return -1

    def index(self, s):
        i = self.find(s)
        if i < 0:
            raise ValueError('substring not found')
        return i

    def count(self, s):
        n, i = 0, 0
        while True:
            j = self.find(s, i)
            if j < 0:
                return n
            n, i = n + 1, j + len(s)

    def __contains__(self, s):
        if isinstance(s, (builtins.int, SInt)):
            return bool(any(x == s for x in self))
        return self.find(s) >= 0

    def startswith(self, s):
        if isinstance(s, tuple):
            return any(self.startswith(x) for x in s)
        s = self._sub(s)
        return len(s) <= len(self.b) and self._at(0, s)

    def endswith(self, s):
        s = self._sub(s)
        return len(s) <= len(self.b) and self._at(len(self.b) - len(s), s)

    def split(self, sep=None, maxsplit=-1):
        if sep is None:
            raise Unsupported('split at spaces')
        s = self._sub(sep)
        if not s:
            raise ValueError('empty separator')
        out, i, begin = [], 0, 0
        while i <= len(self.b) - len(s) and (maxsplit < 0 or len(out) < maxsplit):
            if self._at(i, s):
                out.append(self._mk(self.b[begin:i]))
                i += len(s)
                begin = i
            else:
                i += 1
        out.append(self._mk(self.b[begin:]))
        return out

    def partition(self, sep):
        i = self.find(sep)
        if i < 0:
            return self, self._mk([]), self._mk([])
        n = len(sep)
        return self._mk(self.b[:i]), self._mk(self.b[i:i + n]), self._mk(self.b[i + n:])

    def replace(self, a, b):
        parts = self.split(a)
        out = self._el(parts[0])
        for p in parts[1:]:
            out = out + self._el(b) + self._el(p)
        return self._mk(out)

    def __repr__(self):
        return '<%s of %d>' % (type(self).__name__, len(self.b))


class SBytes(_Seq):
    __slots__ = ('b',)

    def __init__(self, b):
        self.b = list(b)

    _mk = staticmethod(mkbytes)
    _el = staticmethod(elems)

    @staticmethod
    def _like(o):
        return isinstance(o, (bytes, bytearray, SBytes, SByteArray))

    @staticmethod
    def _sub(s):
        return [s] if isinstance(s, builtins.int) else elems(s)

    def hex(self):
        out = []
        for x in self.b:
            if isinstance(x, builtins.int):
                out += list(b'%02x' % x)
            else:
                for n in (z3.LShR(x, 4), x & 15):
                    out.append(z3.simplify(z3.If(z3.ULT(n, 10), n + 48, n + 87)))
        return mkstr(out)

    def decode(self, enc='utf-8', errors='strict'):
        if ascii_(self.b):
            return mkstr(self.b)
        raise Cut('text of other than ASCII characters')

    def __bytes__(self):
        raise Unsupported('bytes of unknown bytes')


def ascii_(b):
    c = [z3.ULT(x, 128) if not isinstance(x, builtins.int) else z3.BoolVal(x < 128) for x in b]
    return bool(sbool(z3.And(c)))


class SByteArray:
    __slots__ = ('b',)

    def __init__(self, b):
        self.b = list(b)

    _mk = staticmethod(lambda el: SByteArray(el))
    __len__ = _Seq.__len__
    _item = _Seq._item
    __iter__ = _Seq.__iter__

    def __getitem__(self, i):
        if isinstance(i, slice):
            return SByteArray(self.b[fix_slice(i)])
        if isinstance(i, SInt):
            i = E.concretize(i)
        return val(self.b[i])

    def __setitem__(self, i, v):
        if isinstance(i, slice):
            self.b[fix_slice(i)] = elems(v)
            return
        if isinstance(i, SInt):
            i = E.concretize(i)
        self.b[i] = unval(v)

    def append(self, v):
        self.b.append(unval(v))

    def extend(self, o):
        self.b.extend(unval(x) for x in o)

    def pop(self, i=-1):
        return val(self.b.pop(i))

    def insert(self, i, v):
        self.b.insert(i, unval(v))

    def reverse(self):
        self.b.reverse()

    def __iadd__(self, o):
        self.b += elems(o)
        return self

    def __add__(self, o):
        return SByteArray(self.b + elems(o))

    def __eq__(self, o):
        if not SBytes._like(o):
            return NotImplemented
        return b2(eq_elems(self.b, elems(o)))

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else not_(r)

    __hash__ = None

    def decode(self, *a):
        x = mkbytes(self.b)
        return x.decode(*a)

    def hex(self):
        return mkbytes(self.b).hex()


def mkstr(el):
    el = list(el)
    if all(isinstance(x, builtins.int) for x in el):
        return ''.join(builtins.chr(x) for x in el)
    return SStr(el)


def strel(s):
    if isinstance(s, SStr):
        return list(s.b)
    return [builtins.ord(c) for c in s]


class SStr(_Seq):
    """A text of ASCII characters (and constant other ones)."""
    __slots__ = ('b',)

    def __init__(self, b):
        self.b = list(b)

    _mk = staticmethod(mkstr)
    _el = staticmethod(strel)
    _sub = staticmethod(strel)

    @staticmethod
    def _like(o):
        return isinstance(o, (str, SStr))

    def _item(self, i):
        return mkstr([self.b[i]])

    def encode(self, enc='utf-8', errors='strict'):
        out = []
        for x in self.b:
            if isinstance(x, builtins.int):
                out += list(builtins.chr(x).encode(enc))
            else:
                out.append(x)
        return mkbytes(out)

    def _cls(self, ranges):
        c = []
        for x in self.b:
            if isinstance(x, builtins.int):
                c.append(z3.BoolVal(any(a <= x <= b for a, b in ranges)))
            else:
                c.append(z3.Or([z3.And(z3.UGE(x, a), z3.ULE(x, b)) for a, b in ranges]))
        return bool(self.b) and sbool(z3.And(c))

    def isalnum(self):
        return self._cls([(48, 57), (65, 90), (97, 122)])

    def isdigit(self):
        return self._cls([(48, 57)])

    def isalpha(self):
        return self._cls([(65, 90), (97, 122)])

    def _space(self, i):
        x = val(self.b[i])
        return (x == 32) or (x >= 9 and x <= 13) or (x >= 28 and x <= 31)

    def strip(self):
        return self.lstrip().rstrip()

    def lstrip(self):
        i = 0
        while i < len(self.b) and self._space(i):
            i += 1
        return mkstr(self.b[i:])

    def rstrip(self):
        i = len(self.b)
        while i > 0 and self._space(i - 1):
            i -= 1
        return mkstr(self.b[:i])

    def lower(self):
        return mkstr([builtins.ord(builtins.chr(x).lower()) if isinstance(x, builtins.int) else
                      z3.If(z3.And(z3.UGE(x, 65), z3.ULE(x, 90)), x + 32, x) for x in self.b])

    def __str__(self):
        return '<text>'

    def __format__(self, spec):
        return '<text>'


def lookup(seq, i):
    """seq[i] for an unknown i."""
    n = len(seq)
    if i.lo < 0 and i < 0:
        i = i + n
        if isinstance(i, SInt) and i.lo < 0 and i < 0:
            raise IndexError('index out of range')
    if not isinstance(i, SInt):
        return seq[i]
    if i.hi >= n and i >= n:
        raise IndexError('index out of range')
    items = list(seq)
    kind = None
    if all(isinstance(x, (builtins.int, SInt)) and not isinstance(x, bool) for x in items):
        kind = 'int'
    elif all(isinstance(x, (str, SStr)) and len(x) == 1 for x in items):
        kind = 'chr'
        items = [strel(x)[0] for x in items]
        items = [val(x) for x in items]
    if kind is None:
        return seq[E.concretize(i)]
    lo, hi = max(i.lo, 0), min(i.hi, n - 1)
    sub = items[lo:hi + 1]
    rl, rh = min(rng(x)[0] for x in sub), max(rng(x)[1] for x in sub)
    w = need(rl, rh)
    # runs of consecutive numbers become one case
    e = None
    k = len(sub) - 1
    cases = []
    while k >= 0:
        j = k
        while j > 0 and isinstance(sub[j], builtins.int) and isinstance(sub[j - 1], builtins.int) and sub[j] == sub[j - 1] + 1:
            j -= 1
        cases.append((lo + j, lo + k))
        k = j - 1
    iw = max(i.e.size(), w)
    ie = ext(i, iw)
    for a, b in cases:
        if a == b:
            v = ext(items[a], iw) if not isinstance(items[a], SInt) else ext(items[a], max(iw, items[a].e.size()))
            v = z3.Extract(w - 1, 0, v) if v.size() > w else v
        else:
            v = ie + z3.BitVecVal(items[a] - a, iw)
            v = z3.Extract(w - 1, 0, v) if iw > w else v
        e = v if e is None else z3.If(z3.And(ie >= a, ie <= b) if a != b else ie == a, v, e)
    r = mk(e, rl, rh)
    if kind == 'chr':
        return mkstr([unval(r)])
    return r
