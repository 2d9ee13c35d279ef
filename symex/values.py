"""Symbolic stand-ins for bool, int, bytes, str, set, dict and list.

Every proxy reports the emulated built-in as __class__, so isinstance() and
singledispatch behave as for the real value; the instrumentation turns type(x)
into x.__class__.
"""
import operator

from . import core
from .core import z3, Unmodelled, Control

CP = 21  # width of a code point


class Proxy:
    __slots__ = ()

    def __reduce__(self):
        raise Unmodelled('pickle of a symbolic value')

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __format__(self, spec):
        return '<sym>'

    def __repr__(self):
        return '<sym>'

    __str__ = __repr__


def is_sym(x):
    return issubclass(type(x), Proxy)


def is_bytes_like(x):
    return type(x) in (bytes, bytearray) or isinstance(x, SymBytes)


# ---------------------------------------------------------------- booleans
def mkbool(e):
    if e is True or e is False:
        return e
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return SymBool(e)


def ebool(x):
    """Python truth expression (bool or BoolRef) of a bool-ish value."""
    if x is True or x is False:
        return x
    if type(x) is SymBool:
        return x.e
    if isinstance(x, z3.BoolRef):
        return x
    if type(x) is SymInt:
        return x.e != 0
    return bool(x)


def And(*xs):
    out = []
    for x in xs:
        x = ebool(x)
        if x is False:
            return False
        if x is not True:
            out.append(x)
    if not out:
        return True
    return mkbool(z3.And(out) if len(out) > 1 else out[0])


def Or(*xs):
    out = []
    for x in xs:
        x = ebool(x)
        if x is True:
            return True
        if x is not False:
            out.append(x)
    if not out:
        return False
    return mkbool(z3.Or(out) if len(out) > 1 else out[0])


def Not(x):
    x = ebool(x)
    if x is True or x is False:
        return not x
    return mkbool(z3.Not(x))


class _Raw:
    """While on, symbolic values hash by identity: a dict that is only read
    through the hooks of rt can then hold them as keys unevaluated."""

    def __init__(self):
        self.on = False
        self.n = 1 << 40

    def hash(self):
        if not self.on:
            return 0
        self.n += 1
        return self.n

    def __enter__(self):
        self.on = True

    def __exit__(self, *a):
        self.on = False


RAW = _Raw()


class SymBool(Proxy):
    __slots__ = ('e',)

    def __init__(self, e):
        self.e = e

    __class__ = property(lambda self: bool)

    def __bool__(self):
        return core.ENG.branch(self.e)

    def __eq__(self, o):
        if type(o) is SymBool:
            return mkbool(self.e == o.e)
        if type(o) is bool:
            return mkbool(self.e if o else z3.Not(self.e))
        if type(o) is int or type(o) is SymInt:
            return self._int() == o
        return NotImplemented

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else Not(r)

    def __hash__(self):
        return RAW.hash() or hash(bool(self))

    def _int(self):
        return SymInt(z3.If(self.e, z3.BitVecVal(1, 2), z3.BitVecVal(0, 2)))

    def __int__(self):
        return int(bool(self))

    __index__ = __int__

    def _lg(self, o, f):
        if type(o) in (bool, SymBool):
            return f(self, o)
        if type(o) in (int, SymInt):
            return NotImplemented
        return NotImplemented

    def __and__(self, o):
        if type(o) in (bool, SymBool):
            return And(self, o)
        return self._int() & o

    def __or__(self, o):
        if type(o) in (bool, SymBool):
            return Or(self, o)
        return self._int() | o

    def __xor__(self, o):
        if type(o) in (bool, SymBool):
            return self != o
        return self._int() ^ o

    __rand__, __ror__, __rxor__ = __and__, __or__, __xor__

    def __add__(self, o):
        return self._int() + o

    __radd__ = __add__

    def __lt__(self, o):
        return self._int() < o

    def __le__(self, o):
        return self._int() <= o

    def __gt__(self, o):
        return self._int() > o

    def __ge__(self, o):
        return self._int() >= o


# ---------------------------------------------------------------- integers
def _sbits(v):
    return v.bit_length() + 1


def mkint(e):
    if z3.is_bv_value(e):
        return e.as_signed_long()
    return SymInt(e)


def uint(e):
    """Unsigned bit-vector term (or int) -> Python int value."""
    if type(e) is int:
        return e
    if z3.is_bv_value(e):
        return e.as_long()
    return SymInt(z3.ZeroExt(1, e))


def _bv(x):
    if type(x) is SymInt:
        return x.e
    if type(x) is int:
        return z3.BitVecVal(x, _sbits(x))
    if type(x) is bool:
        return z3.BitVecVal(int(x), 2)
    if type(x) is SymBool:
        return x._int().e
    return None


def _sext(e, w):
    d = w - e.size()
    return e if d == 0 else z3.SignExt(d, e)


def _two(a, b, grow=0):
    w = max(a.size(), b.size()) + grow
    return _sext(a, w), _sext(b, w)


class SymInt(Proxy):
    """Exact Python int: a signed bit-vector whose width grows as needed."""
    __slots__ = ('e',)

    def __init__(self, e):
        self.e = e

    __class__ = property(lambda self: int)

    def concretise(self, why='int'):
        v, = core.ENG.pick([self.e], why)
        w = self.e.size()
        return v - (1 << w) if v >> (w - 1) else v

    def __bool__(self):
        return core.ENG.branch(self.e != 0)

    def __int__(self):
        return self.concretise()

    __index__ = __int__

    def __float__(self):
        return float(self.concretise())

    def __hash__(self):
        return RAW.hash() or hash(self.concretise('hash of int'))

    def _cmp(self, o, f):
        b = _bv(o)
        if b is None:
            if type(o) is float:
                return f(self.concretise('float compare'), o)
            return NotImplemented
        x, y = _two(self.e, b)
        return mkbool(f(x, y))

    def __eq__(self, o):
        if type(o) is int and _sbits(o) > self.e.size():
            return False
        return self._cmp(o, lambda a, b: a == b)

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else Not(r)

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b)

    def _bin(self, o, f, grow):
        b = _bv(o)
        if b is None:
            return NotImplemented
        x, y = _two(self.e, b, grow)
        return mkint(z3.simplify(f(x, y)))

    def __add__(self, o):
        return self._bin(o, lambda a, b: a + b, 1)

    __radd__ = __add__

    def __sub__(self, o):
        return self._bin(o, lambda a, b: a - b, 1)

    def __rsub__(self, o):
        return self._bin(o, lambda a, b: b - a, 1)

    def __mul__(self, o):
        if type(o) in (bytes, str, list, tuple):
            return o * self.concretise('repeat count')
        if is_sym(o) and type(o) not in (SymInt, SymBool):
            return o * self.concretise('repeat count')
        b = _bv(o)
        if b is None:
            return NotImplemented
        w = self.e.size() + b.size()
        return mkint(z3.simplify(_sext(self.e, w) * _sext(b, w)))

    __rmul__ = __mul__

    def __and__(self, o):
        return self._bin(o, lambda a, b: a & b, 0)

    __rand__ = __and__

    def __or__(self, o):
        return self._bin(o, lambda a, b: a | b, 0)

    __ror__ = __or__

    def __xor__(self, o):
        return self._bin(o, lambda a, b: a ^ b, 0)

    __rxor__ = __xor__

    def __neg__(self):
        return 0 - self

    def __pos__(self):
        return self

    def __invert__(self):
        return mkint(~self.e)

    def __abs__(self):
        n = _sext(self.e, self.e.size() + 1)
        return mkint(z3.If(n < 0, -n, n))

    def __lshift__(self, o):
        n = int(o)
        if n < 0:
            raise ValueError('negative shift count')
        return mkint(z3.simplify(_sext(self.e, self.e.size() + n) << n))

    def __rlshift__(self, o):
        return o << int(self)

    def __rshift__(self, o):
        n = int(o)
        if n < 0:
            raise ValueError('negative shift count')
        w = self.e.size()
        return mkint(z3.simplify(self.e >> min(n, w - 1)))

    def __rrshift__(self, o):
        return o >> int(self)

    def _divmod(self, o):
        if type(o) is not int or o <= 0:
            o = int(o)
            if o <= 0:
                return divmod(int(self), o)
        w = max(self.e.size(), _sbits(o)) + 1
        a, c = _sext(self.e, w), z3.BitVecVal(o, w)
        q = z3.If(a >= 0, z3.UDiv(a, c), -z3.UDiv(-a + (c - 1), c))
        return mkint(z3.simplify(q)), mkint(z3.simplify(a - q * c))

    def __floordiv__(self, o):
        return self._divmod(o)[0]

    def __mod__(self, o):
        return self._divmod(o)[1]

    def __divmod__(self, o):
        return self._divmod(o)

    def __rfloordiv__(self, o):
        return o // int(self)

    def __rmod__(self, o):
        if type(o) is str:
            return o % int(self)
        return o % int(self)

    def __truediv__(self, o):
        return int(self) / o

    def __rtruediv__(self, o):
        return o / int(self)

    def __pow__(self, o):
        return int(self) ** o

    def __rpow__(self, o):
        return o ** int(self)

    def bit_length(self):
        return self.concretise('bit_length').bit_length()

    def bit_count(self):
        w = self.e.size()
        r = 0
        for i in range(w):
            r = mkint(z3.ZeroExt(8, z3.Extract(i, i, self.e))) + r
        return r

    @property
    def real(self):
        return self

    numerator = real

    @property
    def imag(self):
        return 0

    @property
    def denominator(self):
        return 1

    def is_integer(self):
        return True

    def conjugate(self):
        return self

    def to_bytes(self, length=1, byteorder='big', *, signed=False):
        length = int(length)
        if not signed and bool(self < 0):
            raise OverflowError("can't convert negative int to unsigned")
        lim = 8 * length
        if signed:
            ok = And(self >= -(1 << (lim - 1)), self < (1 << (lim - 1))) \
                if lim else self == 0
        else:
            ok = self < (1 << lim)
        if not ok:
            raise OverflowError('int too big to convert')
        w = self.e.size()
        e = _sext(self.e, lim) if w < lim else self.e
        items = []
        for i in range(length):
            hi = lim - 1 - 8 * i
            t = z3.simplify(z3.Extract(hi, hi - 7, e))
            items.append(t.as_long() if z3.is_bv_value(t) else t)
        if byteorder == 'little':
            items.reverse()
        return mkbytes(items)


# ---------------------------------------------------------------- helpers
ALPHABETS = {}


def known_alphabet(e, chars):
    """Record that the character e is one of chars whatever its inputs."""
    if len(ALPHABETS) > 50000:
        ALPHABETS.clear()
    ALPHABETS[e.get_id()] = (e, chars)


def alphabet_of(c):
    hit = ALPHABETS.get(c.get_id())
    if hit is None and z3.is_app_of(c, z3.Z3_OP_ZERO_EXT):
        hit = ALPHABETS.get(c.arg(0).get_id())
    return None if hit is None else hit[1]


def item_eq(a, b):
    ta, tb = type(a), type(b)
    if ta is int and tb is int:
        return a == b
    if ta is int:
        a, b = b, a
        tb = int
    if tb is int:
        if b >> a.size():
            return False
        if ALPHABETS:
            known = alphabet_of(a)
            if known is not None and b not in known:
                return False
        return a == b
    if a is b or a.eq(b):
        return True
    if a.size() != b.size():
        w = max(a.size(), b.size())
        a = z3.ZeroExt(w - a.size(), a) if a.size() < w else a
        b = z3.ZeroExt(w - b.size(), b) if b.size() < w else b
    return a == b


def items_eq(xs, ys):
    if len(xs) != len(ys):
        return False
    out = []
    for a, b in zip(xs, ys):
        e = item_eq(a, b)
        if e is False:
            return False
        if e is not True:
            out.append(e)
    if not out:
        return True
    return z3.And(out) if len(out) > 1 else out[0]


def _ule(a, b):
    """a <= b over unsigned items."""
    if type(a) is int and type(b) is int:
        return a <= b
    w = max(x.size() for x in (a, b) if type(x) is not int)
    if type(a) is int and a >> w:
        return False
    if type(b) is int and b >> w:
        return True

    def up(x):
        if type(x) is int:
            return z3.BitVecVal(x, w)
        return z3.ZeroExt(w - x.size(), x) if x.size() < w else x
    return z3.ULE(up(a), up(b))


def in_range(c, lo, hi):
    return And(_ule(lo, c), _ule(c, hi))


def one_of(c, vals):
    return Or(*[item_eq(c, v) for v in vals])


def items_lt(xs, ys, or_equal=False):
    """Lexicographic comparison as an expression."""
    r = (len(xs) < len(ys)) or (or_equal and len(xs) == len(ys))
    for a, b in reversed(list(zip(xs, ys))):
        eq = mkbool(item_eq(a, b))
        lt = And(_ule(a, b), Not(eq))
        r = Or(lt, And(eq, r))
    return r


def norm_item(x):
    if type(x) is int:
        return x
    if z3.is_bv_value(x):
        return x.as_long()
    return x


def _slice(n, s):
    def idx(v):
        """A concrete bound selecting the same elements (forks on all)."""
        if type(v) is not SymInt:
            return v
        if v >= n:
            return n
        if v <= -n:
            return -n if n else 0
        x, = core.ENG.pick([v.e], 'slice bound', cap=2 * n + 2)
        w = v.e.size()
        return x - (1 << w) if x >> (w - 1) else x
    return slice(idx(s.start), idx(s.stop), idx(s.step)).indices(n)


def select(items, i, width):
    """items[i] for a symbolic i, as one item."""
    n = len(items)
    if not And(i >= -n, i < n):
        raise IndexError('index out of range')
    neg = bool(i < 0)
    e = _w(items[-1], width)
    for k in range(n - 1):
        e = z3.If(ebool(i == (k - n if neg else k)), _w(items[k], width), e)
    return e


class SymSeq(Proxy):
    """Shared behaviour of SymBytes and SymStr (concrete length)."""
    __slots__ = ()

    def __len__(self):
        return len(self.items)

    def __bool__(self):
        return len(self.items) > 0

    def _like(self, o):
        raise NotImplementedError

    def __eq__(self, o):
        it = self._like(o)
        if it is None:
            return NotImplemented if not self._foreign(o) else False
        return mkbool(items_eq(self.items, it))

    def _foreign(self, o):
        return is_sym(o)

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else Not(r)

    def _ord(self, o, f):
        it = self._like(o)
        if it is None:
            return NotImplemented
        return f(self.items, it)

    def __lt__(self, o):
        return self._ord(o, lambda a, b: items_lt(a, b))

    def __le__(self, o):
        return self._ord(o, lambda a, b: items_lt(a, b, True))

    def __gt__(self, o):
        return self._ord(o, lambda a, b: items_lt(b, a))

    def __ge__(self, o):
        return self._ord(o, lambda a, b: items_lt(b, a, True))

    def __add__(self, o):
        it = self._like(o)
        if it is None:
            if is_sym(o) and not isinstance(o, SymSeq):
                return NotImplemented
            if hasattr(type(o), '__radd__') and is_sym(o):
                return NotImplemented
            raise TypeError("can't concat %s" % o.__class__.__name__)
        return self._mk(tuple(self.items) + tuple(it))

    def __radd__(self, o):
        it = self._like(o)
        if it is None:
            raise TypeError("can't concat to %s" % o.__class__.__name__)
        return self._mk(tuple(it) + tuple(self.items))

    def __mul__(self, n):
        return self._mk(tuple(self.items) * int(n))

    __rmul__ = __mul__

    def _need(self, o):
        it = self._like(o)
        if it is None:
            raise TypeError('a %s-like object is required, not %r' % (
                self.__class__.__name__, o.__class__.__name__))
        return it

    def _at(self, i, needle):
        """Expression: needle occurs at position i."""
        if i < 0 or i + len(needle) > len(self.items):
            return False
        return items_eq(self.items[i:i + len(needle)], needle)

    def _range(self, start, end):
        n = len(self.items)
        s, e, _ = _slice(n, slice(start, end))
        return s, e

    def _find(self, needle, start=None, end=None, reverse=False):
        s, e = self._range(start, end)
        if type(start) is int and start > len(self.items):
            return -1
        rng = range(s, e - len(needle) + 1)
        for i in (reversed(rng) if reverse else rng):
            if mkbool(self._at(i, needle)):
                return i
        return -1

    def find(self, sub, start=None, end=None):
        return self._find(self._sub(sub), start, end)

    def rfind(self, sub, start=None, end=None):
        return self._find(self._sub(sub), start, end, True)

    def index(self, sub, start=None, end=None):
        r = self.find(sub, start, end)
        if r < 0:
            raise ValueError('substring not found')
        return r

    def rindex(self, sub, start=None, end=None):
        r = self.rfind(sub, start, end)
        if r < 0:
            raise ValueError('substring not found')
        return r

    def _sub(self, sub):
        return self._need(sub)

    def contains(self, sub):
        needle = self._sub(sub)
        return Or(*[self._at(i, needle)
                    for i in range(len(self.items) - len(needle) + 1)])

    def __contains__(self, sub):
        return bool(self.contains(sub))

    def count(self, sub, start=None, end=None):
        needle = self._sub(sub)
        s, e = self._range(start, end)
        if not needle:
            return max(e - s + 1, 0)
        n = 0
        i = s
        while i + len(needle) <= e:
            if mkbool(self._at(i, needle)):
                n += 1
                i += len(needle)
            else:
                i += 1
        return n

    def startswith(self, prefix, start=None, end=None):
        s, e = self._range(start, end)
        v = self if (s, e) == (0, len(self.items)) else \
            self._mk(self.items[s:e])
        if type(prefix) is tuple:
            return Or(*[_starts(v, p, self) for p in prefix])
        return _starts(v, prefix, self)

    def endswith(self, suffix, start=None, end=None):
        s, e = self._range(start, end)
        v = self if (s, e) == (0, len(self.items)) else \
            self._mk(self.items[s:e])
        if type(suffix) is tuple:
            return Or(*[_ends(v, p, self) for p in suffix])
        return _ends(v, suffix, self)

    def removeprefix(self, p):
        if self.startswith(p):
            return self._mk(self.items[len(p):])
        return self

    def removesuffix(self, p):
        if len(p) and self.endswith(p):
            return self._mk(self.items[:len(self.items) - len(p)])
        return self

    def _split_pos(self, sep, maxsplit, reverse=False):
        needle = self._need(sep)
        if not needle:
            raise ValueError('empty separator')
        items = self.items
        parts = []
        if not reverse:
            i = last = 0
            while i + len(needle) <= len(items) and maxsplit != 0:
                if mkbool(self._at(i, needle)):
                    parts.append(self._mk(items[last:i]))
                    i += len(needle)
                    last = i
                    maxsplit -= 1
                else:
                    i += 1
            parts.append(self._mk(items[last:]))
        else:
            end = len(items)
            i = end - len(needle)
            while i >= 0 and maxsplit != 0:
                if mkbool(self._at(i, needle)):
                    parts.append(self._mk(items[i + len(needle):end]))
                    end = i
                    i -= len(needle)
                    maxsplit -= 1
                else:
                    i -= 1
            parts.append(self._mk(items[:end]))
            parts.reverse()
        return parts

    def split(self, sep=None, maxsplit=-1):
        if sep is None:
            return self._split_ws(maxsplit)
        return self._split_pos(sep, maxsplit)

    def rsplit(self, sep=None, maxsplit=-1):
        if sep is None:
            if maxsplit >= 0:
                raise Unmodelled('rsplit on whitespace with maxsplit')
            return self._split_ws(-1)
        return self._split_pos(sep, maxsplit, True)

    def _split_ws(self, maxsplit):
        parts, cur = [], []
        items = self.items
        i, n = 0, len(items)
        while True:
            while i < n and self._ws(items[i]):
                i += 1
            if i >= n:
                break
            if maxsplit == 0:
                j = n
                while j > i and self._ws(items[j - 1]):
                    j -= 1
                parts.append(self._mk(items[i:j]))
                break
            j = i
            while j < n and not self._ws(items[j]):
                j += 1
            parts.append(self._mk(items[i:j]))
            maxsplit -= 1
            i = j
        return parts

    def partition(self, sep):
        needle = self._need(sep)
        i = self._find(needle)
        if i < 0:
            return self, self._mk(()), self._mk(())
        return (self._mk(self.items[:i]), sep,
                self._mk(self.items[i + len(needle):]))

    def rpartition(self, sep):
        needle = self._need(sep)
        i = self._find(needle, reverse=True)
        if i < 0:
            return self._mk(()), self._mk(()), self
        return (self._mk(self.items[:i]), sep,
                self._mk(self.items[i + len(needle):]))

    def _strip_test(self, chars):
        if chars is None:
            return self._ws
        cs = self._need(chars)
        return lambda c: bool(one_of(c, cs))

    def lstrip(self, chars=None):
        t = self._strip_test(chars)
        i = 0
        while i < len(self.items) and t(self.items[i]):
            i += 1
        return self if i == 0 else self._mk(self.items[i:])

    def rstrip(self, chars=None):
        t = self._strip_test(chars)
        i = len(self.items)
        while i > 0 and t(self.items[i - 1]):
            i -= 1
        return self if i == len(self.items) else self._mk(self.items[:i])

    def strip(self, chars=None):
        return self.lstrip(chars).rstrip(chars)

    def replace(self, old, new, count=-1):
        o, n = self._need(old), tuple(self._need(new))
        if not o:
            raise Unmodelled('replace of the empty string')
        if len(o) == len(n) == 1 and count < 0:
            out = []
            for c in self.items:
                if type(o[0]) is int and type(n[0]) is int:
                    r = map_char(c, {o[0]: n[0]})
                    if r is not None:
                        out.append(r)
                        continue
                e = item_eq(c, o[0])
                if e is True:
                    out.append(n[0])
                elif e is False:
                    out.append(c)
                else:
                    w = self.W
                    out.append(z3.If(e, _w(n[0], w), _w(c, w)))
            return self._mk(out)
        out, i = [], 0
        items = self.items
        while i < len(items):
            if count != 0 and mkbool(self._at(i, o)):
                out.extend(n)
                i += len(o)
                count -= 1
            else:
                out.append(items[i])
                i += 1
        return self._mk(out)

    def join(self, parts):
        out = []
        first = True
        for p in parts:
            if not first:
                out.extend(self.items)
            first = False
            out.extend(self._need(p))
        return self._mk(out)

    def ljust(self, width, fill=None):
        f = self._need(fill) if fill is not None else (32,)
        k = int(width) - len(self.items)
        return self if k <= 0 else self._mk(tuple(self.items) + tuple(f) * k)

    def rjust(self, width, fill=None):
        f = self._need(fill) if fill is not None else (32,)
        k = int(width) - len(self.items)
        return self if k <= 0 else self._mk(tuple(f) * k + tuple(self.items))

    def zfill(self, width):
        k = int(width) - len(self.items)
        if k <= 0:
            return self
        it = tuple(self.items)
        if it and bool(one_of(it[0], (43, 45))):
            return self._mk(it[:1] + (48,) * k + it[1:])
        return self._mk((48,) * k + it)

    # ASCII case handling, per item
    def _case(self, f):
        return self._mk([f(c) for c in self.items])

    def _all(self, test):
        if not self.items:
            return False
        return And(*[test(c) for c in self.items])

    def isdigit(self):
        return self._all(self._isdigit)

    def isalpha(self):
        return self._all(self._isalpha)

    def isalnum(self):
        return self._all(lambda c: Or(self._isalpha(c), self._isdigit(c)))

    def isspace(self):
        return self._all(self._isspace)

    def isascii(self):
        return And(*[_ule(c, 127) for c in self.items])

    def _cased(self, good, bad):
        g = Or(*[good(c) for c in self.items])
        b = Or(*[bad(c) for c in self.items])
        return And(g, Not(b))

    def isupper(self):
        return self._cased(self._isupper, self._islower)

    def islower(self):
        return self._cased(self._islower, self._isupper)

    def lower(self):
        return self._case(self._lower)

    def upper(self):
        return self._case(self._upper)

    def swapcase(self):
        return self._case(lambda c: self._ifc(
            c, self._isupper(c), 32, self._ifc(c, self._islower(c), -32, c)))

    def capitalize(self):
        r = self.lower()
        return self._mk([self._upper(self.items[0])] + list(r.items[1:])) \
            if self.items else self

    def title(self):
        out, prev = [], False
        for c in self.items:
            a = bool(self._isalpha(c))
            out.append(self._lower(c) if prev else self._upper(c))
            prev = a
        return self._mk(out)

    def _ifc(self, c, cond, delta, other):
        cond = ebool(cond)
        if cond is True:
            return _addw(c, delta, self.W)
        if cond is False:
            return other
        return z3.If(cond, _w(_addw(c, delta, self.W), self.W),
                     _w(other, self.W))

    def _lower(self, c):
        return self._ifc(c, self._isupper(c), 32, c)

    def _upper(self, c):
        return self._ifc(c, self._islower(c), -32, c)

    def _isupper(self, c):
        return in_range(c, 65, 90)

    def _islower(self, c):
        return in_range(c, 97, 122)

    def _isdigit(self, c):
        return in_range(c, 48, 57)

    def _isalpha(self, c):
        return Or(in_range(c, 65, 90), in_range(c, 97, 122))

    def _isspace(self, c):
        return Or(in_range(c, 9, 13), item_eq(c, 32))

    def _ws(self, c):
        return bool(self._isspace(c))


_NIBBLE_CHARS = {}
_NIBBLES = {}


def nibble_char(nb, upper=False):
    """Hexadecimal digit (8-bit item) of a 4-bit item."""
    if type(nb) is int:
        return ord(('%X' if upper else '%x') % nb)
    nb = z3.simplify(nb)
    if z3.is_bv_value(nb):
        return nibble_char(nb.as_long(), upper)
    hit = _NIBBLE_CHARS.get((nb.get_id(), upper))
    if hit is None:
        if len(_NIBBLES) > 20000:
            _NIBBLES.clear()
            _NIBBLE_CHARS.clear()
        w = z3.ZeroExt(4, nb)
        e = z3.If(z3.ULT(w, 10), w + 48, w + (55 if upper else 87))
        known_alphabet(e, b'0123456789ABCDEF' if upper else
                       b'0123456789abcdef')
        hit = _NIBBLE_CHARS[nb.get_id(), upper] = (nb, e)
        _NIBBLES[e.get_id()] = (e, nb)
    return hit[1]


def nibble_of(c):
    """The 4-bit item a hexadecimal digit stands for, when it was made by
    nibble_char (or is concrete); else None."""
    if type(c) is int:
        return int(chr(c), 16) if c < 128 and chr(c) in \
            '0123456789abcdefABCDEF' else None
    hit = _NIBBLES.get(c.get_id())
    if hit is None and z3.is_app_of(c, z3.Z3_OP_ZERO_EXT):
        hit = _NIBBLES.get(c.arg(0).get_id())
    return None if hit is None else hit[1]


def map_char(c, m):
    """c with some characters exchanged, when its origin is known (set by
    models: base64 characters keep their sextet); else None."""
    return None


def _w(c, w):
    if type(c) is int:
        return z3.BitVecVal(c, w)
    return z3.ZeroExt(w - c.size(), c) if c.size() < w else c


def _addw(c, d, w):
    if type(c) is int:
        return c + d
    return _w(c, w) + z3.BitVecVal(d, w)


def _starts(v, p, owner):
    it = owner._like(p)
    if it is None:
        raise TypeError('startswith first arg must be %s' %
                        owner.__class__.__name__)
    n = len(it)
    its = owner._like(v)
    if n > len(its):
        return False
    return mkbool(items_eq(its[:n], it))


def _ends(v, p, owner):
    it = owner._like(p)
    if it is None:
        raise TypeError('endswith first arg must be %s' %
                        owner.__class__.__name__)
    its = owner._like(v)
    n = len(it)
    if n > len(its):
        return False
    return mkbool(items_eq(its[len(its) - n:], it))


# ---------------------------------------------------------------- bytes
def mkbytes(items):
    items = tuple(norm_item(x) for x in items)
    for x in items:
        if type(x) is not int:
            return SymBytes(items)
    return bytes(items)


def bitems(x):
    """Items of a bytes-like value, or None."""
    t = type(x)
    if t is bytes or t is bytearray:
        return tuple(x)
    if t is memoryview:
        return tuple(x.tobytes())
    if issubclass(t, SymBytes):
        return x.items
    return None


class SymBytes(SymSeq):
    __slots__ = ('_items',)
    W = 8

    def __init__(self, items):
        self._items = items

    __class__ = property(lambda self: bytes)

    @property
    def items(self):
        return self._items

    def _mk(self, items):
        return mkbytes(items)

    def _like(self, o):
        return bitems(o)

    def _foreign(self, o):
        return is_sym(o) and not isinstance(o, Opaque)

    def _sub(self, sub):
        if type(sub) is int:
            return (sub,)
        if type(sub) is SymInt:
            return (z3.Extract(7, 0, sub.e),)
        return self._need(sub)

    def concretise(self, why='bytes'):
        terms = [x for x in self.items if type(x) is not int]
        vals = dict(zip([t.get_id() for t in terms],
                        core.ENG.pick(terms, why)))
        return bytes(x if type(x) is int else vals[x.get_id()]
                     for x in self.items)

    def __hash__(self):
        return RAW.hash() or hash(self.concretise('hash of bytes'))

    def __bytes__(self):
        return self.concretise('bytes()')

    def __iter__(self):
        return iter([uint(x) for x in self.items])

    def __getitem__(self, i):
        if type(i) is slice:
            s, e, st = _slice(len(self.items), i)
            if (s, e, st) == (0, len(self.items), 1) and \
                    type(self) is SymBytes:
                return self
            return mkbytes(self.items[slice(s, e, st) if st > 0 else
                                      slice(s, e if e >= 0 else None, st)])
        if type(i) is SymInt:
            return uint(norm_item(select(self.items, i, 8)))
        if not isinstance(i, int):
            raise TypeError('byte indices must be integers or slices')
        return uint(self.items[i])

    def decode(self, encoding='utf-8', errors='strict'):
        return decode_bytes(self, encoding, errors)

    def hex(self, *a):
        if a:
            return self.concretise('hex').hex(*a)
        out = []
        for x in self.items:
            for hi in (7, 3):
                out.append(nibble_char(
                    (x >> (hi - 3)) & 15 if type(x) is int else
                    z3.Extract(hi, hi - 3, x)))
        return mkstr(out)

    def tobytes(self):
        return self

    def translate(self, table, delete=b''):
        if is_sym(table) or is_sym(delete):
            raise Unmodelled('symbolic translate table')
        out = []
        for c in self.items:
            if delete and bool(one_of(c, delete)):
                continue
            out.append(_table(c, table))
        return mkbytes(out)

    def release(self):
        pass

    def __buffer__(self, flags):
        raise Unmodelled('buffer of symbolic bytes')


class SymByteArray(SymBytes):
    """bytearray with any mixture of concrete and symbolic bytes."""
    __slots__ = ()
    __class__ = property(lambda self: bytearray)

    def __init__(self, items=()):
        self._items = tuple(norm_item(x) for x in items)

    def _mk(self, items):
        return SymByteArray(items)

    def __radd__(self, o):
        it = self._like(o)
        if it is None:
            raise TypeError("can't concat to %s" % o.__class__.__name__)
        if type(o) is bytearray:
            return SymByteArray(it + self._items)
        return mkbytes(it + self._items)

    def __getitem__(self, i):
        r = SymBytes.__getitem__(self, i)
        return SymByteArray(bitems(r)) if type(i) is slice else r

    def __hash__(self):
        if RAW.on:
            return 0
        raise TypeError("unhashable type: 'bytearray'")

    def concretise(self, why='bytearray'):
        return bytearray(SymBytes.concretise(self, why))

    def __bytes__(self):
        return bytes(self.concretise('bytes()'))

    def _byte(self, v):
        if type(v) is SymInt:
            if not And(v >= 0, v < 256):
                raise ValueError('byte must be in range(0, 256)')
            w = v.e.size()
            return z3.simplify(z3.Extract(7, 0, v.e if w >= 8 else
                                          z3.SignExt(8 - w, v.e)))
        v = operator.index(v)
        if not 0 <= v < 256:
            raise ValueError('byte must be in range(0, 256)')
        return v

    def _bytes_of(self, x):
        it = bitems(x)
        if it is None:
            if isinstance(x, str):
                raise TypeError('expected iterable of integers; got: str')
            it = tuple(self._byte(v) for v in x)
        return it

    def __iadd__(self, o):
        it = self._like(o)
        if it is None:
            raise TypeError("can't concat %s to bytearray" %
                            o.__class__.__name__)
        self._items += it
        return self

    def __imul__(self, n):
        self._items = self._items * int(n)
        return self

    def append(self, v):
        self._items += (self._byte(v),)

    def extend(self, x):
        self._items += self._bytes_of(x)

    def insert(self, i, v):
        it = list(self._items)
        it.insert(int(i), self._byte(v))
        self._items = tuple(it)

    def pop(self, i=-1):
        it = list(self._items)
        v = it.pop(int(i))
        self._items = tuple(it)
        return uint(v)

    def remove(self, v):
        i = self.find(self._mk((self._byte(v),)))
        if i < 0:
            raise ValueError('value not found in bytearray')
        self.pop(i)

    def clear(self):
        self._items = ()

    def reverse(self):
        self._items = self._items[::-1]

    def copy(self):
        return SymByteArray(self._items)

    __copy__ = copy

    def __deepcopy__(self, memo):
        return self.copy()

    def __setitem__(self, i, v):
        it = list(self._items)
        if type(i) is slice:
            it[slice(*[None if x is None else int(x)
                       for x in (i.start, i.stop, i.step)])] = \
                self._bytes_of(v)
        else:
            it[int(i)] = self._byte(v)
        self._items = tuple(it)

    def __delitem__(self, i):
        it = list(self._items)
        if type(i) is slice:
            del it[slice(*[None if x is None else int(x)
                           for x in (i.start, i.stop, i.step)])]
        else:
            del it[int(i)]
        self._items = tuple(it)

    @classmethod
    def fromhex(cls, x):
        return cls(bytes.fromhex(x))


class SymView(SymBytes):
    """memoryview (read only, of single bytes)."""
    __slots__ = ()
    __class__ = property(lambda self: memoryview)
    itemsize, format, readonly, ndim, contiguous = 1, 'B', True, 1, True

    def __init__(self, items=()):
        self._items = tuple(norm_item(x) for x in items)

    nbytes = property(lambda self: len(self._items))
    shape = property(lambda self: (len(self._items),))
    obj = property(lambda self: mkbytes(self._items))

    def _mk(self, items):
        raise AttributeError("'memoryview' object has no such method")

    def __add__(self, o):
        raise TypeError("unsupported operand type(s) for +: 'memoryview' "
                        "and %r" % o.__class__.__name__)

    def __radd__(self, o):
        it = bitems(o)
        if it is None:
            raise TypeError("unsupported operand type(s) for +")
        return SymByteArray(it + self._items) if isinstance(
            o, bytearray) else mkbytes(it + self._items)

    def __getitem__(self, i):
        r = SymBytes.__getitem__(self, i)
        return SymView(bitems(r)) if type(i) is slice else r

    def __hash__(self):
        return SymBytes.__hash__(self)

    def concretise(self, why='memoryview'):
        return memoryview(SymBytes.concretise(self, why))

    def __bytes__(self):
        return bytes(self.concretise('bytes()'))

    def tobytes(self, order=None):
        return mkbytes(self._items)

    def tolist(self):
        return list(self)

    def toreadonly(self):
        return self

    def cast(self, fmt, *a):
        if fmt in ('B', 'c') and not a:
            return self
        raise Unmodelled('memoryview.cast')

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return None

    def __setitem__(self, i, v):
        raise TypeError('cannot modify read-only memory')


def _table(c, table):
    """Lookup c in a 256-byte table, as nested ranges of constant offset."""
    if table is None:
        return c
    if type(c) is int:
        return table[c]
    diff = [i for i in range(256) if table[i] != i]
    if len(diff) > 16:
        v, = core.ENG.pick([c], 'translate')
        return table[v]
    e = c
    for i in diff:
        e = z3.If(c == i, z3.BitVecVal(table[i], 8), e)
    return e


# ---------------------------------------------------------------- text
def mkstr(items):
    items = tuple(norm_item(x) for x in items)
    for x in items:
        if type(x) is not int:
            return SymStr(items)
    return ''.join(map(chr, items))


def sitems(x):
    t = type(x)
    if t is str:
        return tuple(map(ord, x))
    if issubclass(t, SymStr):
        return x.items
    return None


class SymStr(SymSeq):
    __slots__ = ('_items',)
    W = CP

    def __init__(self, items):
        self._items = items

    __class__ = property(lambda self: str)

    @property
    def items(self):
        return self._items

    def _mk(self, items):
        return mkstr(items)

    def _like(self, o):
        return sitems(o)

    def _foreign(self, o):
        return is_sym(o) and not isinstance(o, Opaque)

    def concretise(self, why='str'):
        terms = [x for x in self.items if type(x) is not int]
        vals = dict(zip([t.get_id() for t in terms],
                        core.ENG.pick(terms, why)))
        return ''.join(chr(x if type(x) is int else vals[x.get_id()])
                       for x in self.items)

    def __hash__(self):
        return RAW.hash() or hash(self.concretise('hash of str'))

    def __iter__(self):
        return iter([mkstr((x,)) for x in self.items])

    def __getitem__(self, i):
        if type(i) is slice:
            s, e, st = _slice(len(self.items), i)
            if (s, e, st) == (0, len(self.items), 1):
                return self
            return mkstr(self.items[slice(s, e, st) if st > 0 else
                                    slice(s, e if e >= 0 else None, st)])
        if type(i) is SymInt:
            return mkstr((select(self.items, i, CP),))
        if not isinstance(i, int):
            raise TypeError('string indices must be integers')
        return mkstr((self.items[i],))

    def _uni(self, c, ascii_test, method):
        """A character class: ASCII tested by ascii_test, the rest by the
        table of Python's own str method."""
        if type(c) is int:
            return getattr(chr(c), method)()
        if bool(mkbool(ebool(_ule(c, 127)))):
            return ascii_test(c)
        return uni_class(c, method)

    def _isupper(self, c):
        return self._uni(c, super()._isupper, 'isupper')

    def _islower(self, c):
        return self._uni(c, super()._islower, 'islower')

    def _isdigit(self, c):
        return self._uni(c, super()._isdigit, 'isdigit')

    def _isalpha(self, c):
        return self._uni(c, super()._isalpha, 'isalpha')

    def _isspace(self, c):
        def asc(c):
            return Or(SymSeq._isspace(self, c), in_range(c, 28, 31))
        return self._uni(c, asc, 'isspace')

    def _each(self, asc, method):
        """Class test of every character (one fork: all ASCII or not)."""
        if not self.items:
            return False
        if all_ascii(self.items):
            return And(*[asc(c) for c in self.items])
        return And(*[uni_class(c, method) for c in self.items])

    def isdigit(self):
        return self._each(lambda c: SymSeq._isdigit(self, c),
                          'isdigit')

    def isalpha(self):
        return self._each(lambda c: SymSeq._isalpha(self, c),
                          'isalpha')

    def isspace(self):
        return self._each(lambda c: Or(SymSeq._isspace(self, c),
                                       in_range(c, 28, 31)),
                          'isspace')

    def isdecimal(self):
        return self._each(lambda c: SymSeq._isdigit(self, c),
                          'isdecimal')

    def isnumeric(self):
        return self._each(lambda c: SymSeq._isdigit(self, c),
                          'isnumeric')

    def isalnum(self):
        return self._each(lambda c: Or(SymSeq._isalpha(self, c),
                                       SymSeq._isdigit(self, c)),
                          'isalnum')

    def isprintable(self):
        if not self.items:
            return True
        return self._each(lambda c: in_range(c, 32, 126), 'isprintable')

    def isidentifier(self):
        return self.concretise('isidentifier').isidentifier()

    def istitle(self):
        return self.concretise('istitle').istitle()

    def _casemap(self, method, asc):
        its = self.items
        if all_ascii(its):
            return mkstr([asc(c) for c in its])
        simple, odd = case_table(method)
        if core.ENG.likely(ebool(And(*[Not(in_set(c, odd)) for c in its]))):
            return mkstr([map_table(c, simple) for c in its])
        core.ENG.stats.note('case map of a character that changes length')
        ins = [in_set(c, odd) for c in its]
        for i, c in enumerate(its):
            one = And(*[x if j == i else Not(x) for j, x in enumerate(ins)])
            if not bool(mkbool(ebool(one))):
                continue
            if type(c) is not int:
                c, = core.ENG.pick([c], 'odd ' + method)
            if method == 'lower' and c == 0x3a3:
                break
            r = [ord(x) for x in getattr(chr(c), method)()]
            return mkstr([y for j, x in enumerate(its) for y in (
                r if j == i else [map_table(x, simple)])])
        return getattr(self.concretise('odd ' + method), method)()

    def lower(self):
        return self._casemap('lower', lambda c: self._ifc(
            c, SymSeq._isupper(self, c), 32, c))

    def casefold(self):
        return self._casemap('casefold', lambda c: self._ifc(
            c, SymSeq._isupper(self, c), 32, c))

    def upper(self):
        return self._casemap('upper', lambda c: self._ifc(
            c, SymSeq._islower(self, c), -32, c))

    def capitalize(self):
        if not self.items:
            return self
        head = mkstr(self.items[:1])
        tail = mkstr(self.items[1:])
        return head.upper() + tail.lower()

    def swapcase(self):
        return self.concretise('swapcase').swapcase()

    def title(self):
        return self.concretise('title').title()

    def encode(self, encoding='utf-8', errors='strict'):
        return encode_str(self, encoding, errors)

    def splitlines(self, keepends=False):
        return self.concretise('splitlines').splitlines(keepends)

    def expandtabs(self, n=8):
        return self.concretise('expandtabs').expandtabs(n)

    def translate(self, table):
        out = []
        for c in self.items:
            if type(c) is int:
                out.extend(sitems(chr(c).translate(table)))
                continue
            done = False
            if type(table) is dict and not is_sym(table):
                m = {k: ord(v) if type(v) is str and len(v) == 1 else v
                     for k, v in table.items()}
                if all(type(k) is int and type(v) is int
                       for k, v in m.items()):
                    r = map_char(c, m)
                    if r is None:
                        r = c
                        for k, v in m.items():
                            e = item_eq(c, k)
                            if e is not False:
                                r = z3.If(ebool(e), z3.BitVecVal(v, CP),
                                          _w(r, CP))
                    out.append(r)
                    continue
            if type(table) is dict:
                for k, v in table.items():
                    if mkbool(item_eq(c, k)):
                        if v is not None:
                            out.extend([v] if type(v) is int else sitems(v))
                        done = True
                        break
                if not done:
                    out.append(c)
            else:
                raise Unmodelled('str.translate')
        return mkstr(out)

    def format(self, *a, **k):
        return self.concretise('format string').format(*a, **k)

    def format_map(self, m):
        return self.concretise('format string').format_map(m)

    def __mod__(self, o):
        return self.concretise('format string') % o

    def center(self, *a):
        return self.concretise('center').center(*a)

    def __str__(self):
        return '<sym>'


_UNI = {}


def runs(pred):
    """Maximal runs (lo, hi) of code points satisfying pred."""
    out, lo = [], None
    for i in range(0x110000):
        if pred(chr(i)):
            if lo is None:
                lo = i
        elif lo is not None:
            out.append((lo, i - 1))
            lo = None
    if lo is not None:
        out.append((lo, 0x10FFFF))
    return out


def _tree(w, rs, lo, hi):
    """Membership of w in sorted runs, as a balanced decision tree."""
    if lo >= hi:
        return z3.BoolVal(False)
    if hi - lo == 1:
        a, b = rs[lo]
        return z3.And(z3.UGE(w, a), z3.ULE(w, b)) if a != b else w == a
    mid = (lo + hi) // 2
    return z3.If(z3.ULT(w, rs[mid][0]), _tree(w, rs, lo, mid),
                 _tree(w, rs, mid, hi))


def in_runs(c, rs):
    if type(c) is int:
        return any(a <= c <= b for a, b in rs)
    top = (1 << c.size()) - 1
    rs = [(a, min(b, top)) for a, b in rs if a <= top]
    return mkbool(_tree(c, rs, 0, len(rs)))


def in_set(c, values):
    return in_runs(c, [(v, v) for v in values])


def uni_class(c, method):
    if type(c) is int:
        return getattr(chr(c), method)()
    key = 'class', method
    if key not in _UNI:
        _UNI[key] = runs(lambda ch: getattr(ch, method)())
    return in_runs(c, _UNI[key])


def case_table(method):
    """([(lo, hi, step, delta)], odd code points) of a case mapping.  The
    final sigma rule of lower() is context dependent and counted as odd."""
    key = 'case', method
    if key not in _UNI:
        rows, odd = [], []
        for i in range(0x110000):
            r = getattr(chr(i), method)()
            if len(r) != 1 or (method == 'lower' and i == 0x3A3):
                odd.append(i)
                continue
            d = ord(r) - i
            if not d:
                continue
            if rows and rows[-1][3] == d and (
                    i - rows[-1][1] == rows[-1][2] or
                    rows[-1][0] == rows[-1][1] and i - rows[-1][1] <= 2):
                lo, hi, st, _ = rows[-1]
                rows[-1] = (lo, i, i - hi, d)
            else:
                rows.append((i, i, 1, d))
        _UNI[key] = rows, odd
    return _UNI[key]


def map_table(c, rows):
    if type(c) is int:
        for lo, hi, st, d in rows:
            if lo <= c <= hi and (c - lo) % st == 0:
                return c + d
        return c
    w = _w(c, CP)

    def tree(lo, hi):
        if hi - lo == 1:
            a, b, st, d = rows[lo]
            cond = z3.And(z3.UGE(w, a), z3.ULE(w, b)) if a != b else w == a
            if st == 2:
                cond = z3.And(cond, z3.Extract(0, 0, w) == (a & 1))
            return z3.If(cond, w + z3.BitVecVal(d, CP), w)
        mid = (lo + hi) // 2
        return z3.If(z3.ULT(w, rows[mid][0]), tree(lo, mid), tree(mid, hi))
    return tree(0, len(rows))


class Deferred(SymStr):
    """A string whose characters are only worked out if someone looks."""
    __slots__ = ('_thunk',)

    def __init__(self, thunk):
        self._items = None
        self._thunk = thunk

    @property
    def items(self):
        if self._items is None:
            try:
                s = self._thunk()
            except (ValueError, RecursionError, TypeError) as e:
                raise Unmodelled('deferred text fails: %r' % (e,))
            self._items = sitems(s)
        return self._items

    def __add__(self, o):
        if sitems_lazy(o) and self._items is None:
            return Deferred(lambda: SymStr.__add__(self, o))
        return SymStr.__add__(self, o)

    def __radd__(self, o):
        if sitems_lazy(o) and self._items is None:
            return Deferred(lambda: SymStr.__radd__(self, o))
        return SymStr.__radd__(self, o)

    def concretise(self, why='deferred text'):
        return SymStr.concretise(self, why)


def sitems_lazy(o):
    return type(o) in (str, SymStr, Deferred)


def low8(c):
    """8-bit term of a code point known to be < 256."""
    if type(c) is int:
        return c
    if c.size() == 8:
        return c
    if c.decl().kind() == z3.Z3_OP_ZERO_EXT and c.arg(0).size() == 8:
        return c.arg(0)
    t = z3.simplify(z3.Extract(7, 0, c))
    return t.as_long() if z3.is_bv_value(t) else t


def all_ascii(its):
    return core.ENG.likely(ebool(And(*[is_ascii(c) for c in its])))


def is_ascii(c):
    if type(c) is not int and ALPHABETS and alphabet_of(c) is not None:
        return True
    return _ule(c, 127)


def _codec(name):
    return str(name).lower().replace('_', '-').replace(' ', '-')


def encode_str(s, encoding='utf-8', errors='strict'):
    name = _codec(encoding)
    if name in ('utf8', 'utf-8', 'u8'):
        kind = 'utf-8'
    elif name in ('ascii', 'us-ascii', '646'):
        kind = 'ascii'
    elif name in ('latin-1', 'latin1', 'iso-8859-1', 'iso8859-1', 'l1'):
        kind = 'latin-1'
    else:
        return s.concretise('encode ' + name).encode(encoding, errors)
    if errors != 'strict':
        kind_errors = errors
    else:
        kind_errors = None
    if kind != 'latin-1' and len(s.items) > 3 and all_ascii(s.items):
        return mkbytes([low8(c) for c in s.items])
    out = []
    for i, c in enumerate(s.items):
        if kind == 'latin-1':
            if mkbool(_ule(c, 255)):
                out.append(low8(c))
                continue
        elif mkbool(_ule(c, 127)):
            out.append(low8(c))
            continue
        elif kind == 'utf-8':
            if type(c) is int:
                try:
                    out.extend(chr(c).encode('utf-8', errors))
                except UnicodeEncodeError:
                    raise UnicodeEncodeError('utf-8', '?', 0, 1,
                                             'surrogates not allowed')
                continue
            w = _w(c, CP)
            if bool(mkbool(z3.ULT(w, 0x800))):
                out += [0xC0 | z3.Extract(7, 0, z3.LShR(w, 6)),
                        0x80 | (z3.Extract(7, 0, w) & 0x3F)]
                continue
            if bool(mkbool(z3.ULT(w, 0x10000))):
                if bool(in_range(w, 0xD800, 0xDFFF)):
                    if kind_errors:
                        return s.concretise('encode errors').encode(
                            encoding, errors)
                    raise UnicodeEncodeError('utf-8', '?', 0, 1,
                                             'surrogates not allowed')
                out += [0xE0 | z3.Extract(7, 0, z3.LShR(w, 12)),
                        0x80 | (z3.Extract(7, 0, z3.LShR(w, 6)) & 0x3F),
                        0x80 | (z3.Extract(7, 0, w) & 0x3F)]
                continue
            out += [0xF0 | z3.Extract(7, 0, z3.LShR(w, 18)),
                    0x80 | (z3.Extract(7, 0, z3.LShR(w, 12)) & 0x3F),
                    0x80 | (z3.Extract(7, 0, z3.LShR(w, 6)) & 0x3F),
                    0x80 | (z3.Extract(7, 0, w) & 0x3F)]
            continue
        if kind_errors == 'ignore':
            continue
        if kind_errors == 'replace':
            out.append(63)
            continue
        if kind_errors:
            return s.concretise('encode errors').encode(encoding, errors)
        raise UnicodeEncodeError(kind, '?' * (i + 1), i, i + 1,
                                 'ordinal not in range')
    return mkbytes(z3.simplify(x) if type(x) is not int and
                   x.decl().kind() == z3.Z3_OP_BOR else x for x in out)


def up(c):
    """Byte item -> code point item."""
    return c if type(c) is int else z3.ZeroExt(CP - 8, c)


def decode_bytes(b, encoding='utf-8', errors='strict'):
    name = _codec(encoding)
    its = b.items
    if name in ('latin-1', 'latin1', 'iso-8859-1', 'iso8859-1', 'l1'):
        return mkstr([up(c) for c in its])
    if name in ('ascii', 'us-ascii', '646'):
        out = []
        if len(its) > 3 and all_ascii(its):
            return mkstr([up(c) for c in its])
        for i, c in enumerate(its):
            if not mkbool(is_ascii(c)):
                if errors == 'ignore':
                    continue
                if errors != 'strict':
                    return b.concretise('decode errors').decode(
                        encoding, errors)
                raise UnicodeDecodeError('ascii', b'?' * (i + 1), i, i + 1,
                                         'ordinal not in range(128)')
            out.append(up(c))
        return mkstr(out)
    if name not in ('utf8', 'utf-8', 'u8', 'utf-8-sig'):
        return b.concretise('decode ' + name).decode(encoding, errors)
    if name == 'utf-8-sig':
        if len(its) >= 3 and mkbool(items_eq(its[:3], (0xEF, 0xBB, 0xBF))):
            its = its[3:]
    if errors != 'strict':
        if mkbool(ebool(And(*[_ule(c, 127) for c in its]))):
            return mkstr([up(c) for c in its])
        return b.concretise('decode errors').decode(encoding, errors)

    def bad(i):
        raise UnicodeDecodeError('utf-8', b'?' * (i + 1), i, i + 1,
                                 'invalid byte')
    if len(its) > 3 and all_ascii(its):
        return mkstr([up(c) for c in its])
    out = []
    i, n = 0, len(its)
    while i < n:
        c = its[i]
        if mkbool(_ule(c, 127)):
            out.append(up(c))
            i += 1
            continue

        def cont(k, lo=0x80, hi=0xBF):
            if i + k >= n:
                bad(i)
            if not in_range(its[i + k], lo, hi):
                bad(i)
            return _w(its[i + k], CP) & 0x3F
        if in_range(c, 0xC2, 0xDF):
            out.append(((_w(c, CP) & 0x1F) << 6) | cont(1))
            i += 2
        elif in_range(c, 0xE0, 0xEF):
            if mkbool(item_eq(c, 0xE0)):
                k1 = cont(1, 0xA0)
            elif mkbool(item_eq(c, 0xED)):
                k1 = cont(1, 0x80, 0x9F)
            else:
                k1 = cont(1)
            out.append(((_w(c, CP) & 0x0F) << 12) | (k1 << 6) | cont(2))
            i += 3
        elif in_range(c, 0xF0, 0xF4):
            if mkbool(item_eq(c, 0xF0)):
                k1 = cont(1, 0x90)
            elif mkbool(item_eq(c, 0xF4)):
                k1 = cont(1, 0x80, 0x8F)
            else:
                k1 = cont(1)
            out.append(((_w(c, CP) & 0x07) << 18) | (k1 << 12) |
                       (cont(2) << 6) | cont(3))
            i += 4
        else:
            bad(i)
    return mkstr(z3.simplify(x) if type(x) is not int else x for x in out)


# ------------------------------------------------------------ opaque values
class Opaque(Proxy):
    """Bytes or text with known meaning but no modelled characters.

    Equality is by identity; anything that looks inside ends the path as
    unmodelled (the path's witness is still run against the real code)."""
    __slots__ = ('kind', 'doc', 'ident')

    def __init__(self, cls, doc, ident):
        self.kind = cls
        self.doc = doc
        self.ident = ident

    __class__ = property(lambda self: self.kind)

    def __eq__(self, o):
        if self is o:
            return True
        if isinstance(o, Opaque):
            if self.kind is not o.kind:
                return False
            if self.ident == o.ident:
                return True
            return self._distinct(o)
        if type(o) in (bytes, str, SymBytes, SymStr, Deferred):
            if (o.__class__ is not self.kind):
                return False
            if len(o) == 0 and self.nonempty():
                return False
            raise Unmodelled('comparing an opaque document with text')
        return NotImplemented

    def _distinct(self, o):
        if getattr(self.doc, 'UNIQUE', False) and type(self.doc) is type(o.doc):
            return False        # their serial numbers differ
        raise Unmodelled('comparing two opaque documents')

    def nonempty(self):
        f = getattr(self.doc, 'nonempty', None)
        return f() if f is not None else True

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else Not(r)

    def __hash__(self):
        return hash(self.ident)

    def __bool__(self):
        return self.nonempty()

    def __len__(self):
        f = getattr(self.doc, 'length', None)
        n = f(self) if f is not None else None
        if n is None:
            raise Unmodelled('length of an opaque document')
        return n

    def __iter__(self):
        raise Unmodelled('iterating an opaque document')

    def __getitem__(self, i):
        if type(i) is slice and i == slice(None, None, None):
            return self
        f = getattr(self.doc, 'item', None)
        r = f(self, i) if f is not None else None
        if r is None:
            raise Unmodelled('slicing an opaque document')
        return r

    def __contains__(self, x):
        raise Unmodelled('searching an opaque document')

    def __add__(self, o):
        if type(o) in (bytes, str) and len(o) == 0:
            return self
        f = getattr(self.doc, 'add', None)
        r = f(self, o) if f is not None else None
        if r is None:
            raise Unmodelled('concatenating an opaque document')
        return r

    def __radd__(self, o):
        if type(o) in (bytes, str) and len(o) == 0:
            return self
        raise Unmodelled('concatenating an opaque document')

    def __lt__(self, o):
        raise Unmodelled('ordering an opaque document')

    __le__ = __gt__ = __ge__ = __lt__

    def __bytes__(self):
        return self

    def concretise(self, why=''):
        raise Unmodelled('opaque document passed to native code: ' + why)

    def __getattr__(self, name):
        if name.startswith('__') or not hasattr(self.kind, name):
            raise AttributeError(name)
        if name == 'decode':
            return lambda *a, **k: self._decode(*a, **k)
        if name == 'encode':
            return lambda *a, **k: self._encode(*a, **k)
        if name == 'tobytes':
            return lambda: self
        f = getattr(self.doc, 'method', None)
        if f is not None:
            return lambda *a, **k: f(self, name, *a, **k)
        raise Unmodelled('%s() of an opaque document' % name)

    def _decode(self, encoding='utf-8', errors='strict'):
        return self.doc.decode(self, encoding, errors)

    def _encode(self, encoding='utf-8', errors='strict'):
        return self.doc.encode(self, encoding, errors)


# ------------------------------------------------------------ containers
class SSet:
    """A set whose elements may be symbolic and conditionally present."""
    __slots__ = ('els',)

    def __init__(self, it=(), _guarded=None):
        self.els = []
        if _guarded is not None:
            for v, g in _guarded:
                self._add(v, g)
            return
        if isinstance(it, SSet):
            self.els = list(it.els)
            return
        if isinstance(it, GuardedView):
            for v, g in it.guarded():
                self._add(v, g)
            return
        for v in it:
            self._add(v, True)

    __class__ = property(lambda self: set)

    def _add(self, v, g):
        if not is_sym(v):
            _hashable(v)
        if g is False:
            return
        for i, (w, h) in enumerate(self.els):
            e = sx_eq(w, v)
            if e is True:
                self.els[i] = (w, ebool(Or(h, g)))
                return
            if e is False:
                continue
            # possible duplicate: present only when different
            g = ebool(And(g, Not(And(e, h))))
        self.els.append((v, g))

    def add(self, v):
        self._add(v, True)

    def update(self, *its):
        for it in its:
            for v, g in _guarded(it):
                self._add(v, g)

    def has(self, v):
        return Or(*[And(g, sx_eq(w, v)) for w, g in self.els])

    def __contains__(self, v):
        return bool(self.has(v))

    def difference(self, *others):
        els = self.els
        for o in others:
            og = _guarded(o)
            new = []
            for v, g in els:
                inn = Or(*[And(h, sx_eq(w, v)) for w, h in og])
                gg = ebool(And(g, Not(inn)))
                if gg is not False:
                    new.append((v, gg))
            els = new
        s = SSet()
        s.els = list(els)
        return s

    def intersection(self, *others):
        els = self.els
        for o in others:
            og = _guarded(o)
            new = []
            for v, g in els:
                inn = Or(*[And(h, sx_eq(w, v)) for w, h in og])
                gg = ebool(And(g, inn))
                if gg is not False:
                    new.append((v, gg))
            els = new
        s = SSet()
        s.els = list(els)
        return s

    def union(self, *others):
        s = SSet(self)
        s.update(*others)
        return s

    def symmetric_difference(self, o):
        o = SSet(o)
        return self.difference(o).union(o.difference(self))

    def _set(self, o):
        return isinstance(o, (set, frozenset)) or isinstance(o, GuardedView) \
            or type(o) is type({}.keys())

    def __sub__(self, o):
        return self.difference(o) if self._set(o) else NotImplemented

    def __and__(self, o):
        return self.intersection(o) if self._set(o) else NotImplemented

    def __or__(self, o):
        return self.union(o) if self._set(o) else NotImplemented

    def __xor__(self, o):
        return self.symmetric_difference(o) if self._set(o) \
            else NotImplemented

    def __rsub__(self, o):
        return SSet(o).difference(self)

    __rand__ = __and__
    __ror__ = __or__
    __rxor__ = __xor__

    def __isub__(self, o):
        self.els = self.difference(o).els
        return self

    def __iand__(self, o):
        self.els = self.intersection(o).els
        return self

    def __ior__(self, o):
        self.update(o)
        return self

    def subset(self, o):
        og = _guarded(o)
        return And(*[Or(Not(g), *[And(h, sx_eq(w, v)) for w, h in og])
                     for v, g in self.els])

    def issubset(self, o):
        return self.subset(o)

    def issuperset(self, o):
        return SSet(o).subset(self)

    def isdisjoint(self, o):
        return Not(bool(self.intersection(o)))

    def __le__(self, o):
        return self.subset(o)

    def __ge__(self, o):
        return SSet(o).subset(self)

    def __lt__(self, o):
        return And(self.subset(o), Not(SSet(o).subset(self)))

    def __gt__(self, o):
        return And(SSet(o).subset(self), Not(self.subset(o)))

    def __eq__(self, o):
        if not self._set(o):
            return NotImplemented
        return And(self.subset(o), SSet(o).subset(self))

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else Not(r)

    def __hash__(self):
        return hash(frozenset(self))

    def __bool__(self):
        return bool(Or(*[g for _, g in self.els]))

    def __len__(self):
        return len(self._force())

    def _force(self):
        self.els = [(v, True) for v, g in self.els if mkbool(g)]
        return [v for v, _ in self.els]

    def __iter__(self):
        return iter(self._force())

    def copy(self):
        return SSet(self)

    def remove(self, v):
        if v not in self:
            raise KeyError(v)
        self.discard(v)

    def discard(self, v):
        self.els = self.difference([v]).els

    def pop(self):
        l = self._force()
        if not l:
            raise KeyError('pop from an empty set')
        return self.els.pop()[0]

    def clear(self):
        self.els = []

    def difference_update(self, *o):
        self.els = self.difference(*o).els

    def intersection_update(self, *o):
        self.els = self.intersection(*o).els

    def __repr__(self):
        return '{<sym>}'

    def __reduce__(self):
        raise Unmodelled('pickle of a set')

    def __deepcopy__(self, memo):
        return SSet(self)

    def __format__(self, spec):
        return '{<sym>}'


class GuardedView:
    """Marker base: keys() view of a SymDict."""
    __slots__ = ()


def _guarded(it):
    if isinstance(it, SSet):
        return it.els
    if isinstance(it, GuardedView):
        return list(it.guarded())
    return [(v, True) for v in it]


def _hashable(v):
    if type(v) in (list, dict, bytearray) or type(v).__hash__ is None:
        raise TypeError('unhashable type: %r' % type(v).__name__)
    if type(v) is tuple:
        for x in v:
            if not is_sym(x):
                _hashable(x)


def sx_eq(a, b):
    """a == b as bool or SymBool, without forcing inside tuples."""
    if a is b:
        return True
    ta, tb = type(a), type(b)
    if ta is tb and issubclass(ta, tuple) or (
            issubclass(ta, tuple) and issubclass(tb, tuple)):
        if len(a) != len(b):
            return False
        return And(*[sx_eq(x, y) for x, y in zip(a, b)])
    r = a == b
    if r is True or r is False or type(r) is SymBool:
        return r
    return bool(r)


class LazySeq(Proxy):
    """A list of concrete length whose elements are made on demand."""
    __slots__ = ('makers', 'vals', 'kind')

    def __init__(self, makers, kind=list):
        self.makers = list(makers)
        self.vals = [None] * len(self.makers)
        self.kind = kind

    __class__ = property(lambda self: self.kind)

    def _get(self, i):
        m = self.makers[i]
        if m is not None:
            self.vals[i] = m()
            self.makers[i] = None
        return self.vals[i]

    def __len__(self):
        return len(self.makers)

    def __bool__(self):
        return len(self.makers) > 0

    def __iter__(self):
        for i in range(len(self.makers)):
            yield self._get(i)

    def real(self):
        return [self._get(i) for i in range(len(self.makers))]

    def __getitem__(self, i):
        if type(i) is slice:
            return self.real()[i]
        if is_sym(i):
            i = int(i)
        n = len(self.makers)
        if not -n <= i < n:
            raise IndexError('list index out of range')
        return self._get(i % n)

    def __contains__(self, x):
        return any(v == x for v in self)

    def __eq__(self, o):
        if isinstance(o, LazySeq):
            o = o.real()
        if isinstance(o, (list, tuple)) and self.kind is o.__class__:
            if len(o) != len(self):
                return False
            return all(a == b for a, b in zip(self, o))
        if isinstance(o, (list, tuple)):
            return False
        return NotImplemented

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else not r

    __hash__ = None

    def __add__(self, o):
        return self.real() + list(o)

    def __radd__(self, o):
        return list(o) + self.real()

    def __deepcopy__(self, memo):
        return self.real()

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        return getattr(self.real(), name)


class Slot:
    __slots__ = ('key', 'present', 'make', 'value', 'made', 'deleted')

    def __init__(self, key, make, present=True):
        self.key = key
        self.make = make
        self.present = present   # True or BoolRef
        self.made = False
        self.value = None

    def get(self):
        if not self.made:
            self.value = self.make() if callable(self.make) else self.make
            self.made = True
        return self.value


class SymKeys(GuardedView):
    __slots__ = ('d',)

    def __init__(self, d):
        self.d = d

    def guarded(self):
        return [(s.key, s.present) for s in self.d.slots]

    def __iter__(self):
        return iter([s.key for s in self.d._force()])

    def __len__(self):
        return len(self.d._force())

    def __contains__(self, k):
        return k in self.d

    def __sub__(self, o):
        return SSet(self).difference(o)

    def __rsub__(self, o):
        return SSet(o).difference(self)

    def __and__(self, o):
        return SSet(self).intersection(o)

    __rand__ = __and__

    def __or__(self, o):
        return SSet(self).union(o)

    __ror__ = __or__

    def __xor__(self, o):
        return SSet(self).symmetric_difference(o)

    def __le__(self, o):
        return SSet(self).subset(o)

    def __lt__(self, o):
        return SSet(self) < SSet(o)

    def __ge__(self, o):
        return SSet(o).subset(self)

    def __gt__(self, o):
        return SSet(o) < SSet(self)

    def __eq__(self, o):
        return SSet(self) == SSet(o)

    def isdisjoint(self, o):
        return SSet(self).isdisjoint(o)

    __hash__ = None

    def __repr__(self):
        return 'dict_keys(<sym>)'


class SymDict(Proxy):
    """A dict with lazily chosen presence and values (slots in order)."""
    __slots__ = ('slots', 'ident')

    def __init__(self, slots):
        self.slots = list(slots)

    __class__ = property(lambda self: dict)

    def _present(self, s):
        if s.present is True:
            return True
        if mkbool(s.present):
            s.present = True
            return True
        s.present = False
        return False

    def _lookup(self, key):
        for s in list(self.slots):
            e = sx_eq(s.key, key)
            if e is False:
                continue
            if s.present is False:
                continue
            if bool(e) and self._present(s):
                return s
        return None

    def _force(self):
        self.slots = [s for s in self.slots
                      if s.present is not False and self._present(s)]
        return self.slots

    def get(self, key, default=None):
        s = self._lookup(key)
        return default if s is None else s.get()

    def __getitem__(self, key):
        s = self._lookup(key)
        if s is None:
            raise KeyError(key)
        return s.get()

    def has(self, key):
        return Or(*[And(s.present, sx_eq(s.key, key)) for s in self.slots])

    def __contains__(self, key):
        return self._lookup(key) is not None

    def __len__(self):
        return len(self._force())

    def __bool__(self):
        return bool(Or(*[s.present for s in self.slots]))

    def __iter__(self):
        return iter([s.key for s in self._force()])

    def keys(self):
        return SymKeys(self)

    def items(self):
        return [(s.key, s.get()) for s in self._force()]

    def values(self):
        return [s.get() for s in self._force()]

    def real(self):
        return {s.key: s.get() for s in self._force()}

    def copy(self):
        return SymDict([_copy_slot(s) for s in self.slots])

    def __setitem__(self, k, v):
        s = self._lookup(k)
        if s is None:
            self.slots.append(Slot(k, lambda: v))
        else:
            s.value, s.made = v, True

    def __delitem__(self, k):
        s = self._lookup(k)
        if s is None:
            raise KeyError(k)
        self.slots = [x for x in self.slots if x is not s]

    def pop(self, k, *d):
        s = self._lookup(k)
        if s is None:
            if d:
                return d[0]
            raise KeyError(k)
        self.slots = [x for x in self.slots if x is not s]
        return s.get()

    def setdefault(self, k, d=None):
        s = self._lookup(k)
        if s is None:
            self[k] = d
            return d
        return s.get()

    def update(self, *a, **k):
        for src in a + (k,):
            for kk in src.keys():
                self[kk] = src[kk]

    def __eq__(self, o):
        if isinstance(o, SymDict):
            o = o.real()
        if type(o) is not dict:
            return NotImplemented
        return self.real() == o

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else not r

    __hash__ = None

    def __or__(self, o):
        d = self.copy()
        d.update(o)
        return d

    def __ror__(self, o):
        d = dict(o)
        d.update(self.real())
        return d

    def __deepcopy__(self, memo):
        return self.copy()

    def __reversed__(self):
        return reversed(list(iter(self)))


def _copy_slot(s):
    t = Slot(s.key, s.get, s.present)
    return t


# ------------------------------------------------------------ BytesIO
class SymBytesIO(Proxy):
    __slots__ = ('data', 'p', 'closed')
    import io as _io
    _CLS = _io.BytesIO

    def __init__(self, data=b''):
        self.data = tuple(bitems(data))
        self.p = 0
        self.closed = False

    __class__ = property(lambda self: SymBytesIO._CLS)

    def read(self, n=-1):
        rest = len(self.data) - self.p
        if n is None:
            n = -1
        if type(n) is SymInt:
            if n < 0 or n >= rest:
                n = rest
            else:
                for k in range(rest):
                    if n == k:
                        n = k
                        break
        if n < 0 or n > rest:
            n = max(rest, 0)
        r = self.data[self.p:self.p + n]
        self.p += n
        return mkbytes(r)

    def read1(self, n=-1):
        return self.read(n)

    def readinto(self, b):
        r = bitems(self.read(len(b)))
        b[:len(r)] = mkbytes(r)
        return len(r)

    readinto1 = readinto

    def readline(self, n=-1):
        rest = self.data[self.p:]
        for i, c in enumerate(rest):
            if mkbool(item_eq(c, 10)):
                return self.read(i + 1)
        return self.read()

    def readlines(self, n=-1):
        out = []
        while self.p < len(self.data):
            out.append(self.readline())
        return out

    def __iter__(self):
        return iter(self.readlines())

    def truncate(self, n=None):
        n = self.p if n is None else int(n)
        self.data = self.data[:n]
        return n

    def writelines(self, parts):
        for x in parts:
            self.write(x)

    def flush(self):
        pass

    def tell(self):
        return self.p

    def seek(self, off, whence=0):
        off = int(off)
        base = (0, self.p, len(self.data))[whence]
        if whence == 0 and off < 0:
            raise ValueError('negative seek value %d' % off)
        self.p = max(0, base + off)
        return self.p

    def getvalue(self):
        return mkbytes(self.data)

    def getbuffer(self):
        return SymView(self.data)

    def readable(self):
        return True

    def seekable(self):
        return True

    def writable(self):
        return True

    def write(self, b):
        it = bitems(b)
        if it is None:
            if isinstance(b, bytes):
                raise Unmodelled('writing an opaque document to a stream')
            raise TypeError("a bytes-like object is required, not %r" %
                            b.__class__.__name__)
        if self.p > len(self.data):
            self.data += (0,) * (self.p - len(self.data))
        d = list(self.data)
        d[self.p:self.p + len(it)] = it
        self.data = tuple(d)
        self.p += len(it)
        return len(it)

    def close(self):
        self.closed = True

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def __eq__(self, o):
        return self is o

    __hash__ = object.__hash__
