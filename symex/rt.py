"""Run-time hooks called by instrumented code, and the call dispatcher."""
import builtins
import collections
import collections.abc
import enum
import functools
import io
import itertools
import operator
import time
import types
import typing

from . import core
from . import values as V
from .core import Control, Unmodelled, z3
from .values import (Deferred, LazySeq, Opaque, Proxy, SSet, SymBool,
                     SymBytes, SymBytesIO, SymDict, SymInt, SymKeys, SymStr,
                     is_sym, mkbool, mkbytes, mkint, mkstr, sx_eq)

slice = builtins.slice
MODELS = {}         # function/class object -> model
HOOK = '__sx__'


def model(*fs):
    def deco(m):
        for f in fs:
            MODELS[f] = m
        return m
    return deco


def enter(name):
    if core.ENG is not None:
        core.ENG.functions.add(name)
        if time.monotonic() > core.ENG.limit:
            raise core.Inconclusive('time for one path used up')


def deco(d):
    if d is functools.lru_cache or d is getattr(functools, 'cache', None):
        return MODELS[d]
    return d


def reraise():
    import sys
    e = sys.exc_info()[1]
    if isinstance(e, Control):
        raise e


# ---------------------------------------------------------------- operators
def symbolic(x, depth=4):
    """Does x contain a proxy (searched through plain containers)?"""
    t = type(x)
    if issubclass(t, Proxy):
        return True
    if t is SSet or t is SymKeys:
        return True
    if depth <= 0:
        return False
    if issubclass(t, (list, tuple, set, frozenset)):
        return any(symbolic(v, depth - 1) for v in x)
    if issubclass(t, dict):
        return any(symbolic(k, depth - 1) or symbolic(v, depth - 1)
                   for k, v in x.items())
    return False


def concretise(x, why=''):
    t = type(x)
    if t is SymBool:
        return bool(x)
    if t in (SymInt, SymBytes, SymStr, Deferred):
        return x.concretise(why)
    if t is Opaque or issubclass(t, Opaque):
        return x.concretise(why)
    if t is SSet:
        return {concretise(v, why) for v in x}
    if t is LazySeq:
        return t is LazySeq and x.kind(concretise(v, why) for v in x)
    if t is SymDict:
        return {concretise(k, why): concretise(v, why)
                for k, v in x.items()}
    if t is SymKeys:
        return [concretise(k, why) for k in x]
    if t is SymBytesIO:
        r = io.BytesIO(concretise(x.getvalue(), why))
        r.seek(x.p)
        return r
    if issubclass(t, Proxy):
        raise Unmodelled('%s passed to native code %s' % (t.__name__, why))
    if t is list:
        return [concretise(v, why) for v in x]
    if t is dict:
        return {concretise(k, why): concretise(v, why)
                for k, v in x.items()}
    if t in (set, frozenset):
        return t(concretise(v, why) for v in x)
    if t is tuple:
        return tuple(concretise(v, why) for v in x)
    if issubclass(t, tuple) and hasattr(t, '_fields'):
        return t(*[concretise(v, why) for v in x])
    return x


def contains(container, x):
    """x in container -> bool or SymBool."""
    t = type(container)
    if t is SSet:
        V._hashable(x) if not is_sym(x) else None
        return container.has(x)
    if t is SymDict:
        return x in container
    if t is SymKeys:
        return x in container
    if t in (SymBytes, SymStr, Deferred):
        if t is not SymBytes and not isinstance(x, str):
            raise TypeError("'in <string>' requires string as left operand")
        return container.contains(x)
    if t in (str, bytes) and is_sym(x):
        if t is str:
            if not isinstance(x, str):
                raise TypeError("'in <string>' requires string as left "
                                "operand, not %s" % x.__class__.__name__)
            return SymStr(V.sitems(container)).contains(x)
        return SymBytes(V.bitems(container)).contains(x)
    if t in (set, frozenset, dict, type({}.keys())):
        if t is dict or t is type({}.keys()):
            if not symbolic(x) and not any(symbolic(k) for k in container):
                return x in container
        elif not symbolic(x):
            return x in container
        if type(x) in (LazySeq, SymDict):
            raise TypeError('unhashable type')
        return V.Or(*[sx_eq(k, x) for k in container])
    if t in (list, tuple):
        if symbolic(x) or symbolic(container):
            return V.Or(*[sx_eq(k, x) for k in container])
        return x in container
    if isinstance(container, enum.EnumMeta) and is_sym(x):
        return V.Or(*[sx_eq(m.value, x) for m in container])
    if t is range and type(x) is SymInt:
        r = container
        if r.step == 1:
            return V.And(x >= r.start, x < r.stop)
        return V.Or(*[x == k for k in r])
    return x in container


def in_(x, c):
    return contains(c, x)


def not_in(x, c):
    return V.Not(contains(c, x))


def is_(a, b):
    if a is b:
        return True
    for x, y in ((a, b), (b, a)):
        if type(x) is SymBool and (y is True or y is False or
                                   type(y) is SymBool):
            return x == y
        if type(x) is SymInt and type(y) in (int, SymInt):
            return x == y
        if type(x) in (SymStr, SymBytes) and len(x) == 0:
            return x.__class__ is y.__class__ and len(y) == 0
    return False


def is_not(a, b):
    return V.Not(is_(a, b))


_OPS = {'Eq': operator.eq, 'NotEq': operator.ne, 'Lt': operator.lt,
        'LtE': operator.le, 'Gt': operator.gt, 'GtE': operator.ge,
        'In': in_, 'NotIn': not_in, 'Is': is_, 'IsNot': is_not}


def chain(ops, left, *rest):
    r = True
    for op, th in zip(ops, rest):
        right = th()
        r = _OPS[op](left, right)
        if not r:
            return r
        left = right
    return r


def eq(a, b):
    ta = type(a)
    if (ta is tuple or ta is list) and type(b) is ta:
        if len(a) != len(b):
            return False
        return V.And(*[eq(x, y) if x is not y else True
                       for x, y in zip(a, b)])
    return a == b


def ne(a, b):
    ta = type(a)
    if (ta is tuple or ta is list) and type(b) is ta:
        return V.Not(eq(a, b))
    return a != b


def not_(x):
    if type(x) is SymBool:
        return V.Not(x)
    if type(x) is SymInt:
        return x == 0
    return not x


def _symkeyed():
    return core.ENG.objects.setdefault('symkeyed', set())


def _unsure(d, key):
    """Does looking key up in the plain dict d need symbolic comparison?"""
    return is_sym(key) or type(key) is tuple and symbolic(key) or \
        core.ENG is not None and id(d) in _symkeyed()


def _find_key(d, key):
    for k in d:
        if sx_eq(k, key):
            return k
    return _MISSING


def setitem(val, obj, key):
    if type(obj) in _DICTS and _unsure(obj, key):
        if type(key) in (LazySeq, SymDict):
            raise TypeError('unhashable type: %r' % key.__class__.__name__)
        k = _find_key(obj, key)
        if k is not _MISSING:
            _replace(obj, k, val)
            return
        if symbolic(key):
            _symkeyed().add(id(obj))
        with V.RAW:
            obj[key] = val
        return
    obj[key] = val


def _replace(d, key, val):
    """Give an existing key (found by identity) another value."""
    if not symbolic(key):
        d[key] = val
        return
    items = [(k, val if k is key else v) for k, v in d.items()]
    d.clear()
    with V.RAW:
        for k, v in items:
            d[k] = v


def _remove(d, key):
    items = [(k, v) for k, v in d.items() if k is not key]
    v = [v for k, v in d.items() if k is key][0]
    d.clear()
    with V.RAW:
        for k, x in items:
            d[k] = x
    return v


def delitem(obj, key):
    if type(obj) in _DICTS and _unsure(obj, key):
        k = _find_key(obj, key)
        if k is _MISSING:
            raise KeyError(key)
        _remove(obj, k)
        return
    del obj[key]


def augitem(op, obj, key, val):
    f = getattr(operator, {
        'Add': 'iadd', 'Sub': 'isub', 'Mult': 'imul', 'Div': 'itruediv',
        'FloorDiv': 'ifloordiv', 'Mod': 'imod', 'Pow': 'ipow',
        'BitOr': 'ior', 'BitAnd': 'iand', 'BitXor': 'ixor',
        'LShift': 'ilshift', 'RShift': 'irshift',
        'MatMult': 'imatmul'}[op])
    setitem(f(getitem(obj, key), val), obj, key)


def dict_(pairs):
    d = {}
    for k, v in pairs:
        setitem(v, d, k)
    return d


def getitem(obj, key):
    t = type(obj)
    if t in _DICTS and _unsure(obj, key):
        if t is collections.defaultdict:
            r = _dict_get(obj, key, _MISSING, False)
            if r is not _MISSING:
                return r
            if obj.default_factory is None:
                raise KeyError(key)
            r = call(obj.default_factory)
            setitem(r, obj, key)
            return r
        return _dict_get(obj, key, _MISSING)
    if type(key) is SymInt and t in (str, bytes, list, tuple) and obj:
        if t is str:
            return SymStr(V.sitems(obj))[key]
        if t is bytes:
            return SymBytes(V.bitems(obj))[key]
        n = len(obj)
        if not V.And(key >= -n, key < n):
            raise IndexError('index out of range')
        w = key.e.size()
        v, = core.ENG.pick([key.e], 'index', cap=2 * n)
        return obj[v - (1 << w) if v >> (w - 1) else v]
    if isinstance(obj, enum.EnumMeta) and type(key) in (SymStr, Deferred):
        for n, m in obj.__members__.items():
            if key == n:
                return m
        raise KeyError(key)
    if t is types.MappingProxyType and is_sym(key):
        return _dict_get(dict(obj), key, _MISSING)
    return obj[key]


_MISSING = object()


_DICTS = (dict, collections.OrderedDict, collections.defaultdict)


def _dict_get(d, key, default, fail=True):
    if type(key) in (LazySeq, SymDict):
        raise TypeError('unhashable type: %r' % key.__class__.__name__)
    for k, v in d.items():
        if sx_eq(k, key):
            return v
    if default is _MISSING and fail:
        raise KeyError(key)
    return default


# ---------------------------------------------------------------- text
def _fmt1(v, conv, spec):
    """One replacement field -> str or symbolic str (exact) or None."""
    if type(v) in (SymStr, Deferred) and conv in (-1, None, 's', 115, '') \
            and not spec:
        return v
    if not symbolic(v):
        return None
    return None


def _concrete_fmt(v, conv, spec):
    v = concretise(v, 'formatting')
    if conv in ('r', 114):
        v = repr(v)
    elif conv in ('s', 115):
        v = str(v)
    elif conv in ('a', 97):
        v = ascii(v)
    return format(v, spec)


def fstr(*parts):
    if not any(type(p) is tuple and symbolic(p[0]) for p in parts):
        return ''.join(p if type(p) is str else
                       _concrete_fmt(p[0], chr(p[1]) if p[1] > 0 else '',
                                     p[2]) for p in parts)

    def thunk():
        out = []
        for p in parts:
            if type(p) is str:
                out.extend(V.sitems(p))
                continue
            v, conv, spec = p
            conv = chr(conv) if conv > 0 else ''
            out.extend(_fmt_items(v, conv, spec))
        return mkstr(out)
    return Deferred(thunk)


def _fmt_items(v, conv, spec):
    if type(v) in (SymStr, Deferred) and conv in (None, '', 's') and \
            spec in ('', 's'):
        return v.items
    if type(v) is SymInt:
        if spec in ('', 'd'):
            return V.sitems(int_to_str(v))
        if not conv and spec in ('02x', '02X', 'x', 'X') and \
                not (v < 0) and v < 256:
            if len(spec) > 1 or not (v < 16):
                hi = [V.nibble_char(z3.Extract(7, 4, V._sext(
                    v.e, max(v.e.size(), 9))), spec[-1] == 'X')]
            else:
                hi = []
            return hi + [V.nibble_char(z3.Extract(3, 0, V._sext(
                v.e, max(v.e.size(), 9))), spec[-1] == 'X')]
    return list(map(ord, _concrete_fmt(v, conv or '', spec)))


def int_to_str(v):
    """Decimal text of a symbolic int (forks on the number of digits)."""
    neg = False
    if v < 0:
        neg, v = True, -v
        if type(v) is int:
            return '-%d' % v
    n = 1
    while not (v < 10 ** n):
        n += 1
    w = max(v.e.size(), (10 ** n).bit_length() + 1)
    e = V._sext(v.e, w)
    items = []
    for i in range(n - 1, -1, -1):
        d = z3.URem(z3.UDiv(e, z3.BitVecVal(10 ** i, w)),
                    z3.BitVecVal(10, w))
        items.append(z3.simplify(z3.ZeroExt(V.CP - 8, z3.Extract(
            7, 0, d if w >= 8 else z3.ZeroExt(8 - w, d))) + 48))
    return mkstr(([45] if neg else []) + items)


class _Box:
    """Stands for one argument during a deferred str.format."""

    def __init__(self, v):
        self.v = v


def str_format(fmt, args, kwargs):
    if not symbolic(args) and not symbolic(kwargs) and \
            not any(symbolic(getattr(a, 'args', ())) for a in args):
        return fmt.format(*args, **kwargs)
    import string

    def thunk():
        out = []
        f = string.Formatter()
        auto = 0
        for lit, field, spec, conv in f.parse(fmt):
            out.extend(map(ord, lit))
            if field is None:
                continue
            if field == '':
                field = str(auto)
                auto += 1
            v, _ = f.get_field(field, args, kwargs)
            out.extend(_fmt_items(v, conv, spec or ''))
        return mkstr(out)
    return Deferred(thunk)


def mod(a, b):
    if type(a) is str:
        if symbolic(b):
            return Deferred(lambda: _percent(a, b))
        return a % b
    if type(a) in (bytes, bytearray) and symbolic(b):
        return _percent_bytes(bytes(a), b)
    return a % b


def _percent_bytes(fmt, args):
    import re
    args = args if type(args) is tuple else (args,)
    out, k = [], 0
    parts = re.split(rb'(%(?:[%bscdxX]|02[xX]))', fmt)
    for i, p in enumerate(parts):
        if i % 2 == 0:
            if b'%' in p:
                return fmt % tuple(concretise(x, '%-formatting')
                                   for x in args)
            out.extend(p)
            continue
        f = p[1:].decode()
        if f == '%':
            out.append(37)
            continue
        if k >= len(args):
            raise TypeError('not enough arguments for format string')
        v = args[k]
        k += 1
        if f in 'bs':
            if type(v) in (bytes, bytearray) or isinstance(v, SymBytes):
                out.extend(V.bitems(v))
            elif isinstance(v, Opaque) and v.kind is bytes:
                raise Unmodelled('%-formatting of an opaque document')
            else:
                out.extend(b'%s' % concretise(v, '%-formatting'))
        elif f == 'c' and (type(v) is bytes or isinstance(v, SymBytes)) and \
                len(v) == 1:
            out.extend(V.bitems(v))
        elif f == 'c' and type(v) is SymInt:
            out.extend(V.bitems(m_bytes([v])))
        elif type(v) is SymInt:
            out.extend(V.bitems(mkstr(_fmt_items(
                v, '', '' if f == 'd' else f)).encode()))
        else:
            out.extend(p % (concretise(v, '%-formatting'),))
    if k != len(args):
        raise TypeError('not all arguments converted during bytes '
                        'formatting')
    return mkbytes(out)


def _percent(fmt, args):
    import re
    args = args if type(args) is tuple else (args,)
    out, i, k = [], 0, 0
    for m in re.finditer(r'%([%sdrxX]|02[xX])', fmt):
        out.extend(map(ord, fmt[i:m.start()]))
        i = m.end()
        if m.group(1) == '%':
            out.append(37)
            continue
        v = args[k]
        k += 1
        if type(v) in (SymStr, Deferred) and m.group(1) == 's':
            out.extend(v.items)
        elif type(v) is SymInt:
            f = m.group(1)
            out.extend(_fmt_items(v, '', '' if f in 'sdr' else f))
        else:
            out.extend(map(ord, ('%' + m.group(1)) % (
                concretise(v, 'formatting'),)))
    rest = fmt[i:]
    if '%' in rest or k != len(args):
        return fmt % tuple(concretise(a, 'formatting') for a in args)
    out.extend(map(ord, rest))
    return mkstr(out)


def set_(lst):
    return SSet(lst)


# ---------------------------------------------------------------- calls
_NATURAL = {
    isinstance, issubclass, len, iter, next, enumerate, zip, map, filter,
    sorted, min, max, sum, any, all, reversed, range, callable, id, abs,
    divmod, getattr, hasattr, setattr, delattr, property, staticmethod,
    classmethod, object, super, vars, hash, slice, builtins.slice,
    functools.partial, functools.reduce, functools.wraps,
    functools.singledispatch, functools.cmp_to_key,
    functools.update_wrapper, functools.cached_property,
}
_NATURAL_MODS = {'_operator', 'operator', 'itertools', '_functools',
                 'functools', 'collections', '_collections', 'typing',
                 'copy', 'dataclasses', 'contextlib', 'abc', '_abc', 'enum'}
_BUILTIN_METHOD = type(len)
_METHOD_WRAPPER = type(object().__str__)
_METHOD_DESC = type(str.upper)
_WRAPPER_DESC = type(object.__init__)


def call(f, *args, **kw):
    try:
        m = MODELS.get(f)
    except TypeError:
        m = None
    if m is not None:
        return m(*args, **kw)
    tf = type(f)
    if tf is types.FunctionType:
        if HOOK in f.__globals__ or f.__module__ in _NATURAL_MODS or \
                hasattr(f, 'registry') or f.__module__.startswith(
                    ('symex', 'props')):
            return f(*args, **kw)
        return _foreign(f, args, kw)
    if tf is types.MethodType:
        fn = f.__func__
        g = getattr(fn, '__globals__', None)
        if g is not None and (HOOK in g or fn.__module__ in _NATURAL_MODS or
                              fn.__module__.startswith(('symex', 'props'))):
            return f(*args, **kw)
        try:
            m = MODELS.get(fn)
        except TypeError:
            m = None
        if m is not None:
            return m(f.__self__, *args, **kw)
        return _foreign(f, args, kw)
    if tf is _BUILTIN_METHOD:
        s = f.__self__
        if s is None or isinstance(s, types.ModuleType):
            if f in _NATURAL or f.__module__ in _NATURAL_MODS:
                return f(*args, **kw)
            return _foreign(f, args, kw)
        return _builtin_method(f, s, args, kw)
    if isinstance(f, type):
        if issubclass(f, BaseException):
            return f(*args, **kw)
        if issubclass(f, enum.Enum):
            return _enum_call(f, args, kw)
        if f in _NATURAL or issubclass(f, Proxy):
            return f(*args, **kw)
        mod_ = f.__module__
        if mod_ in _OURS or mod_ in _NATURAL_MODS or mod_.startswith(
                ('symex', 'props', 'sxstd.')):
            return f(*args, **kw)
        return _foreign(f, args, kw)
    if tf in (_METHOD_DESC, _WRAPPER_DESC) and args:
        a0 = args[0]
        if is_sym(a0) or type(a0) is SSet:
            return call(getattr(a0, f.__name__), *args[1:], **kw)
        if symbolic(args[1:]) and type(a0) in (str, bytes, dict):
            return call(getattr(a0, f.__name__), *args[1:], **kw)
        return f(*args, **kw)
    if tf is _METHOD_WRAPPER:
        return f(*args, **kw)
    if tf is functools.partial:
        return call(f.func, *f.args, *args, **{**f.keywords, **kw})
    return f(*args, **kw)


_OURS = set()


def _foreign(f, args, kw):
    if not symbolic(args) and not symbolic(kw):
        return f(*args, **kw)
    name = '%s.%s' % (getattr(f, '__module__', '?'),
                      getattr(f, '__qualname__', repr(f)))
    core.ENG.stats.note('native call: ' + name)
    return f(*[concretise(a, name) for a in args],
             **{k: concretise(v, name) for k, v in kw.items()})


def _enum_call(f, args, kw):
    if kw or len(args) != 1 or not symbolic(args[0]):
        return f(*args, **kw)
    v = args[0]
    if type(v) in (SymDict, LazySeq, SSet):
        raise ValueError('%s is not a valid %s' % ('<sym>', f.__qualname__))
    for m in f.__members__.values():
        if v is m:
            return m
        if sx_eq(m.value, v):
            return m
    miss = f.__dict__.get('_missing_')
    if miss is not None:
        r = f._missing_(v)
        if isinstance(r, f):
            return r
    raise ValueError('<sym> is not a valid %s' % f.__qualname__)


def _builtin_method(f, s, args, kw):
    name = f.__name__
    ts = type(s)
    if ts is str:
        if name == 'format':
            return str_format(s, args, kw)
        if name == 'join' and args:
            parts = list(args[0])
            if symbolic(parts):
                if any(type(p) is Deferred for p in parts):
                    return Deferred(lambda: SymStr(V.sitems(s)).join(parts))
                return SymStr(V.sitems(s)).join(parts)
            return f(parts)
        if symbolic(args) or symbolic(kw):
            return getattr(SymStr(V.sitems(s)), name)(*args, **kw)
        return f(*args, **kw)
    if ts is bytes:
        if name == 'join' and args:
            parts = list(args[0])
            if symbolic(parts):
                return SymBytes(V.bitems(s)).join(parts)
            return f(parts)
        if symbolic(args) or symbolic(kw):
            return getattr(SymBytes(V.bitems(s)), name)(*args, **kw)
        return f(*args, **kw)
    if ts in _DICTS and args and name in (
            'get', '__getitem__', '__contains__', 'pop', 'setdefault',
            '__setitem__', 'update') and _unsure(s, args[0]):
        key = args[0]
        if name == 'get':
            return _dict_get(s, key, args[1] if len(args) > 1 else None)
        if name == '__getitem__':
            return getitem(s, key)
        if name == '__setitem__':
            return setitem(args[1], s, key)
        if name == '__contains__':
            return contains(s, key)
        if name == 'pop':
            k = _find_key(s, key)
            if k is not _MISSING:
                return _remove(s, k)
            if len(args) > 1:
                return args[1]
            raise KeyError(key)
        if name == 'setdefault':
            k = _find_key(s, key)
            if k is not _MISSING:
                return [v for kk, v in s.items() if kk is k][0]
            v = args[1] if len(args) > 1 else None
            setitem(v, s, key)
            return v
        if hasattr(args[0], 'keys'):
            for k in args[0].keys():
                setitem(args[0][k], s, k)
        else:
            for k, v in args[0]:
                setitem(v, s, k)
        for k, v in kw.items():
            setitem(v, s, k)
        return None
    if ts in _DICTS and name == 'update' and args and \
            type(args[0]) is dict and symbolic(list(args[0])):
        for k, v in args[0].items():
            setitem(v, s, k)
        return f(**kw)
    if ts is types.MappingProxyType and args and is_sym(args[0]) and \
            name == 'get':
        return _dict_get(dict(s), args[0],
                         args[1] if len(args) > 1 else None)
    if ts in (set, frozenset):
        if name in ('difference', 'intersection', 'union', 'issubset',
                    'issuperset', 'isdisjoint', 'symmetric_difference') and \
                symbolic(args):
            return getattr(SSet(s), name)(*args)
        if name == '__contains__' and symbolic(args):
            return contains(s, args[0])
        return f(*args, **kw)
    if ts in (list, dict, tuple):
        return f(*args, **kw)
    if isinstance(s, type) or ts is int or ts is float:
        return _foreign(f, args, kw)
    if type(s).__module__ in _NATURAL_MODS:
        return f(*args, **kw)
    return _foreign(f, args, kw)


# ------------------------------------------------------------------ match
_ABSENT = object()
_SELF_MATCH = (bool, bytearray, bytes, dict, float, frozenset, int, list, set,
               str, tuple)


def match(subject, pat):
    """Bindings of a pattern, or None."""
    binds = {}
    return binds if _match(subject, pat, binds) else None


def _match(x, pat, binds):
    kind = pat[0]
    if kind == 'value':
        return bool(sx_eq(x, pat[1]))
    if kind == 'single':
        return bool(is_(x, pat[1]))
    if kind == 'as':
        if pat[1] is not None and not _match(x, pat[1], binds):
            return False
        if pat[2] is not None:
            binds[pat[2]] = x
        return True
    if kind == 'or':
        return any(_match(x, q, binds) for q in pat[1])
    if kind == 'class':
        return _match_class(x, pat, binds)
    if kind == 'seq':
        if isinstance(x, (str, bytes, bytearray)) or not isinstance(
                x, collections.abc.Sequence):
            return False
        ps = pat[1]
        star = [i for i, q in enumerate(ps) if q[0] == 'star']
        n = len(x)
        if n != len(ps) if not star else n < len(ps) - 1:
            return False
        xs = list(x)
        if star:
            i = star[0]
            j = n - (len(ps) - i - 1)
            if ps[i][1] is not None:
                binds[ps[i][1]] = xs[i:j]
            xs = xs[:i] + xs[j:]
            ps = ps[:i] + ps[i + 1:]
        return all(_match(v, q, binds) for v, q in zip(xs, ps))
    if kind == 'map':
        if not isinstance(x, collections.abc.Mapping):
            return False
        got = []
        for k in pat[1]:
            v = _dict_get(x, k, _ABSENT) if type(x) in _DICTS and \
                _unsure(x, k) else x.get(k, _ABSENT)
            if v is _ABSENT:
                return False
            got.append(v)
        if not all(_match(v, q, binds) for v, q in zip(got, pat[2])):
            return False
        if pat[3] is not None:
            rest = m_dict(x)
            for k in pat[1]:
                del rest[k]
            binds[pat[3]] = rest
        return True
    raise Unmodelled('match pattern ' + kind)


def _match_class(x, pat, binds):
    cls, pos, kwd, kps = pat[1:]
    if not isinstance(x, cls):
        return False
    if pos:
        if cls in _SELF_MATCH:
            if len(pos) > 1:
                raise TypeError('too many positional sub-patterns')
            if not _match(x, pos[0], binds):
                return False
        else:
            args = getattr(cls, '__match_args__', ())
            if len(pos) > len(args):
                raise TypeError('%s() accepts %d positional sub-patterns' % (
                    cls.__name__, len(args)))
            kwd = tuple(args[:len(pos)]) + kwd
            kps = pos + kps
    for name, q in zip(kwd, kps):
        v = getattr(x, name, _MISSING)
        if v is _MISSING or not _match(v, q, binds):
            return False
    return True


# ---------------------------------------------------------------- builtins
@model(type)
def m_type(*a):
    if len(a) == 1:
        x = a[0]
        if is_sym(x) or type(x) is SSet:
            return x.__class__
        return type(x)
    return type(*a)


@model(bool)
def m_bool(x=False):
    if type(x) is SymBool:
        return x
    if type(x) is SymInt:
        return x != 0
    return bool(x)


@model(int)
def m_int(x=0, *a, **k):
    t = type(x)
    if t is SymInt and not a and not k:
        return x
    if t is SymBool:
        return x._int()
    if t in (SymStr, Deferred):
        return parse_int(x, *a, **k)
    if issubclass(t, SymBytes):
        return parse_int(V.decode_bytes(x, 'latin-1'), *a, **k)
    if is_sym(x) and not isinstance(x, Opaque):
        raise TypeError('int() argument must be a string, a bytes-like '
                        'object or a real number, not %r' %
                        x.__class__.__name__)
    if hasattr(type(x), '__sx_int__'):
        return x.__sx_int__()
    return int(x, *a, **k)


def parse_int(s, base=10):
    s = s.strip()
    its = list(V.sitems(s))
    if type(base) is not int or base not in (10, 16):
        return int(concretise(s, 'int()'), base)
    if base == 16 and its:
        nibs = [V.nibble_of(c) for c in its]
        if None not in nibs:
            return V.uint(z3.simplify(z3.Concat([V._w(x, 4) for x in nibs]))
                          if len(nibs) > 1 else nibs[0])
    neg = False
    bad = ValueError('invalid literal for int() with base %d' % base)
    if its and V.one_of(its[0], (43, 45)):
        neg = bool(mkbool(V.item_eq(its[0], 45)))
        its = its[1:]
    val, last_us, n = 0, True, 0
    for c in its:
        if mkbool(V.item_eq(c, 95)):
            if last_us:
                raise bad
            last_us = True
            continue
        if type(c) is not int and not mkbool(V.ebool(V._ule(c, 127))):
            v, = core.ENG.pick([c], 'int() of a non-ASCII character')
            c = v
        if V.in_range(c, 48, 57):
            d = V.uint(c) - 48
        elif type(c) is int and c > 127 and chr(c).isdecimal():
            d = int(chr(c))
        elif base == 16 and V.in_range(c, 97, 102):
            d = V.uint(c) - 87
        elif base == 16 and V.in_range(c, 65, 70):
            d = V.uint(c) - 55
        else:
            raise bad
        val = val * base + d
        n += 1
        last_us = False
    if last_us or n == 0:
        raise bad
    return -val if neg else val


def _deep_sym(x, seen=None, depth=4):
    """Like symbolic(), also through instances of the code under test."""
    if symbolic(x):
        return True
    if isinstance(x, BaseException):
        return any(_deep_sym(a, None, depth - 1) for a in x.args)
    return False


@model(str)
def m_str(x='', *a, **k):
    t = type(x)
    if t in (SymStr, Deferred):
        return x
    if issubclass(t, SymBytes) and (a or k):
        return x.decode(*a, **k)
    if isinstance(x, Opaque):
        if x.kind is str:
            return x
        if a or k:
            return x.decode(*a, **k)
    if t is SymInt:
        return Deferred(lambda: int_to_str(x))
    if _deep_sym(x):
        if isinstance(x, BaseException):
            args = x.args
            if len(args) == 1 and isinstance(args[0], str):
                return args[0] if not isinstance(x, KeyError) else \
                    Deferred(lambda: repr(concretise(args[0])))
            if len(args) == 1:
                return Deferred(lambda: (
                    repr if isinstance(x, KeyError) else str)(
                        concretise(args[0], 'str')))
            return Deferred(lambda: str(concretise(args, 'str')))
        _digits(x)
        return Deferred(lambda: str(concretise(x, 'str()')))
    return str(x, *a, **k)


def _digits(x, depth=40):
    """Fail as str() does on an integer beyond the digit limit."""
    if type(x) is int:
        if x.bit_length() > 14000:
            str(x)
    elif depth and type(x) in (list, tuple, set, frozenset, SSet, LazySeq):
        for v in x:
            _digits(v, depth - 1)
    elif depth and type(x) in (dict, SymDict):
        for k in x:
            _digits(k, depth - 1)
            _digits(x[k], depth - 1)


@model(repr, ascii)
def m_repr(x):
    if _deep_sym(x):
        if isinstance(x, BaseException):
            return Deferred(lambda: type(x).__name__ + repr(
                concretise(x.args, 'repr')))
        return Deferred(lambda: repr(concretise(x, 'repr()')))
    return repr(x)


@model(format)
def m_format(x, spec=''):
    if symbolic(x):
        return fstr((x, -1, spec))
    return format(x, spec)


@model(print)
def m_print(*a, **k):
    return None


@model(bytearray)
def m_bytearray(x=b'', *a, **k):
    r = m_bytes(x, *a, **k)
    if isinstance(r, Opaque):
        return r
    return V.SymByteArray(V.bitems(r))


@model(memoryview)
def m_memoryview(x):
    if isinstance(x, SymBytes):
        return V.SymView(x.items)
    if isinstance(x, Opaque) and x.kind is bytes:
        return x
    return memoryview(x)


@model(bytes)
def m_bytes(x=b'', *a, **k):
    t = type(x)
    if t is SymBytes:
        return x
    if issubclass(t, SymBytes):
        return mkbytes(x.items)
    if t in (SymStr, Deferred):
        if not a and not k:
            raise TypeError('string argument without an encoding')
        return x.encode(*a, **k)
    if isinstance(x, Opaque):
        if x.kind is bytes:
            return x
        return x.encode(*a, **k)
    if t in (list, tuple, LazySeq) and symbolic(x):
        items = []
        for v in x:
            if type(v) is SymInt:
                if not V.And(v >= 0, v < 256):
                    raise ValueError('bytes must be in range(0, 256)')
                w = v.e.size()
                items.append(z3.simplify(
                    z3.Extract(7, 0, v.e if w >= 8 else
                               z3.SignExt(8 - w, v.e))))
            else:
                items.append(int(v))
        return mkbytes(items)
    if t is SymInt:
        return bytes(int(x))
    if isinstance(x, types.GeneratorType) or isinstance(x, (map, filter)):
        return m_bytes(list(x))
    if t in (bytes, bytearray):
        return bytes(x)
    conv = getattr(t, '__bytes__', None)
    if conv is not None and not a and not k and symbolic(
            list(vars(x).values()) if hasattr(x, '__dict__') else x):
        return call(conv, x)
    return bytes(x, *a, **k)


@model(list)
def m_list(x=()):
    return list(x)


@model(tuple)
def m_tuple(x=()):
    if type(x) is LazySeq:
        return tuple(x.real())
    return tuple(x)


@model(dict)
def m_dict(*a, **k):
    if a and type(a[0]) is dict and core.ENG is not None and \
            id(a[0]) in _symkeyed():
        d = dict_(a[0].items())
        d.update(k)
        return d
    if a and type(a[0]) in (list, tuple) and symbolic(a[0]):
        d = dict_(a[0])
        d.update(k)
        return d
    if a and type(a[0]) is SymDict:
        d = a[0].copy()
        for kk, v in k.items():
            d[kk] = v
        return d
    return dict(*a, **k)


@model(set, frozenset)
def m_set(x=()):
    return SSet(x)


@model(ord)
def m_ord(c):
    if isinstance(c, SymBytes) or type(c) in (SymStr, Deferred):
        if len(c) != 1:
            raise TypeError('ord() expected a character')
        return V.uint(c.items[0])
    return ord(c)


@model(chr)
def m_chr(i):
    if type(i) is SymInt:
        if not V.And(i >= 0, i < 0x110000):
            raise ValueError('chr() arg not in range(0x110000)')
        w = i.e.size()
        e = z3.Extract(V.CP - 1, 0, i.e) if w >= V.CP else \
            z3.SignExt(V.CP - w, i.e)
        return mkstr([z3.simplify(e)])
    return chr(i)


@model(hex)
def m_hex(x):
    return hex(concretise(x))


@model(oct)
def m_oct(x):
    return oct(concretise(x))


@model(bin)
def m_bin(x):
    return bin(concretise(x))


@model(getattr)
def m_getattr(o, name, *d):
    if is_sym(name):
        name = concretise(name, 'attribute name')
    return getattr(o, name, *d)


@model(hasattr)
def m_hasattr(o, name):
    if is_sym(name):
        name = concretise(name, 'attribute name')
    return hasattr(o, name)


@model(vars)
def m_vars(o):
    if is_sym(o):
        raise TypeError('vars() argument must have __dict__ attribute')
    return vars(o)


@model(any)
def m_any(it):
    for x in it:
        if x:
            return True
    return False


@model(all)
def m_all(it):
    acc = []
    for x in it:
        if not x:
            return False
    return True


@model(typing.cast)
def m_cast(t, v):
    return v


@model(open)
def m_open(*a, **k):
    return open(*a, **k)


class _Cached:
    """functools.lru_cache without eviction, per explored path."""

    def __init__(self, f, typed=False, size=None):
        self.f = f
        self.typed = typed
        self.__wrapped__ = f
        functools.update_wrapper(self, f)

    def __get__(self, obj, cls=None):
        return self if obj is None else types.MethodType(self, obj)

    def __call__(self, *a, **k):
        if core.ENG is None:
            return self.f(*a, **k)
        key = a + tuple(x for p in sorted(k.items()) for x in p)
        for x in key:
            V._hashable(x) if not is_sym(x) else None
            if type(x) in (LazySeq, SymDict):
                raise TypeError('unhashable type')
        store = core.ENG.objects.setdefault(('lru', id(self)), [])
        for old, v in store:
            if len(old) == len(key) and V.And(*[
                    x is y or _same_key(x, y, self.typed)
                    for x, y in zip(old, key)]):
                return v
        v = self.f(*a, **k)
        store.append((key, v))
        return v

    def cache_clear(self):
        core.ENG.objects.pop(('lru', id(self)), None)

    def cache_info(self):
        raise core.Unmodelled('cache_info')


def _same_key(x, y, typed):
    if typed and x.__class__ is not y.__class__:
        return False
    return sx_eq(x, y)


@model(functools.lru_cache)
def m_lru(maxsize=128, typed=False):
    if callable(maxsize):
        return _Cached(maxsize)
    return lambda f: _Cached(f, typed)


@model(functools.cache)
def m_cache(f):
    return _Cached(f)


@model(sorted)
def m_sorted(it, *, key=None, reverse=False):
    it = list(it)
    return sorted(it, key=key, reverse=reverse)
