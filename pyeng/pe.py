"""What harnesses use: unknown inputs, assumptions and assertions."""
import hashlib

import sym
from sym import E, SBool, SBytes, SInt, SStr

SYM = False
INPUTS = {}
COUNTS = {}
REACHED = set()
TIER = 'quick'


class Failed(BaseException):
    pass


class Skip(BaseException):
    pass


def setup(symbolic):
    global SYM
    SYM = symbolic


def native(inputs):
    global INPUTS, COUNTS, REACHED
    INPUTS, COUNTS, REACHED = inputs, {}, set()


def _next(n, default=0):
    k = COUNTS.get(n, 0)
    COUNTS[n] = k + 1
    return INPUTS.get(n if k == 0 else '%s#%d' % (n, k), default)


def Thorough():
    return (E.tier if SYM else TIER) == 'thorough'


def U8(n):
    if SYM:
        return sym.val(E.byte(n))
    return _next(n)


def Int(n, lo, hi):
    if SYM:
        return E.int(n, lo, hi)
    return _next(n, lo)


def Bool(n):
    return Int(n, 0, 1) == 1


def Choose(n, lo, hi):
    if SYM:
        return E.choose(n, lo, hi)
    return _next(n, lo)


def Bytes(n, k):
    if SYM:
        return sym.mkbytes([E.byte(n) for _ in range(k)])
    return bytes(_next(n) for _ in range(k))


def Str(n, k):
    """A text of k ASCII characters."""
    if SYM:
        b = [E.byte(n) for _ in range(k)]
        for x in b:
            E.add(sym.z3.ULT(x, 128))
        return sym.mkstr(b)
    return ''.join(chr(_next(n)) for _ in range(k))


def Name(n, k):
    """A text of k letters and digits."""
    if SYM:
        b = [E.byte(n) for _ in range(k)]
        z = sym.z3
        for x in b:
            E.add(z.Or(z.And(z.UGE(x, 97), z.ULE(x, 122)), z.And(z.UGE(x, 48), z.ULE(x, 57))))
        return sym.mkstr(b)
    return ''.join(chr(_next(n, 97)) for _ in range(k))


def Assume(c):
    if SYM:
        E.assume(c)
    elif not c:
        raise Skip()


def Assert(c, msg):
    if SYM:
        E.assert_(c, msg)
    elif not c:
        raise Failed(msg)


def Reach(tag):
    (E.reached if SYM else REACHED).add(tag)


def And(*c):
    r = True
    for x in c:
        if x is True:
            continue
        if x is False:
            return False
        r = x if r is True else r & x
    return r


def Or(*c):
    r = False
    for x in c:
        if x is False:
            continue
        if x is True:
            return True
        r = x if r is False else r | x
    return r


def Not(c):
    return sym.not_(c)


def Implies(a, b):
    return Or(Not(a), b)


def Iff(a, b):
    return Or(And(a, b), And(Not(a), Not(b)))


def sha3(b):
    if SYM:
        return E.digest(b)
    return hashlib.sha3_256(bytes(b)).digest()


def uf(name, args, size):
    """Unknown function of byte strings."""
    if SYM:
        return E.uf(name, args, size)
    return bytes(_next(name) for _ in range(size))


def Refused(f, *a):
    """Calls f; tells whether it raised, which on a chain undoes the call."""
    try:
        return False, f(*a)
    except Exception as e:
        return True, e
    except BaseException as e:
        if isinstance(e, (sym.Abort, Failed, Skip, KeyboardInterrupt, SystemExit, MemoryError)):
            raise
        return True, e


def Unmodelled(what):
    """Raised where the environment is not modelled: the path is left out."""
    return sym.Cut(what)
