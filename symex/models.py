"""Models of the library functions the code under test calls.

Each model is exact on concrete operands (it calls the real function) and
follows the documented/CPython behaviour on symbolic ones.
"""
import base64
import binascii
import copy
import hashlib
import hmac
import io
import json
import re
import struct

import cbor2

from . import core
from . import values as V
from .core import Cut, Unmodelled, z3
from .rt import MODELS, concretise, model, symbolic
from .values import (Deferred, LazySeq, Opaque, Slot, SSet, SymBool, SymBytes,
                     SymBytesIO, SymDict, SymInt, SymStr, is_sym, mkbool,
                     mkbytes, mkint, mkstr)

try:
    from re import _parser as sre_parse, _constants as sre
except ImportError:  # pragma: no cover
    import sre_parse
    import sre_constants as sre


# ---------------------------------------------------------------- integers
@model(int.from_bytes)
def int_from_bytes(b, byteorder='big', *, signed=False):
    if not symbolic(b) and not symbolic(signed):
        return int.from_bytes(b, byteorder, signed=signed)
    if isinstance(b, Opaque):
        raise Unmodelled('int.from_bytes of an opaque document')
    if type(b) in (list, tuple, LazySeq):
        from .rt import m_bytes
        b = m_bytes(list(b))
    its = list(V.bitems(b))
    if byteorder == 'little':
        its.reverse()
    elif byteorder != 'big':
        raise ValueError("byteorder must be either 'little' or 'big'")
    if not its:
        return 0
    ts = [V._w(x, 8) for x in its]
    e = z3.Concat(ts) if len(ts) > 1 else ts[0]
    if signed:
        return mkint(z3.simplify(e))
    return mkint(z3.ZeroExt(1, e))


_FMT = {'b': (1, True), 'B': (1, False), 'h': (2, True), 'H': (2, False),
        'i': (4, True), 'I': (4, False), 'l': (4, True), 'L': (4, False),
        'q': (8, True), 'Q': (8, False)}


def _parse_fmt(fmt):
    if isinstance(fmt, bytes):
        fmt = fmt.decode()
    order = 'little'
    std = True
    if fmt and fmt[0] in '<>!=@':
        if fmt[0] in '>!':
            order = 'big'
        std = fmt[0] != '@'
        fmt = fmt[1:]
    else:
        std = False
    out, num = [], ''
    for ch in fmt:
        if ch.isspace():
            continue
        if ch.isdigit():
            num += ch
            continue
        n = int(num) if num else 1
        num = ''
        if ch == 's':
            out.append(('s', n))
        elif ch == 'x':
            out.append(('x', n))
        elif ch in _FMT:
            if not std and ch in 'lLqQiIhH' and len(fmt) > 1:
                raise Unmodelled('native struct alignment')
            size, sg = _FMT[ch]
            if not std and ch in 'lL':
                size = 8
            out.extend([(ch, size, sg)] * n)
        elif ch == '?':
            out.extend([('?', 1)] * n)
        elif ch == 'c':
            out.extend([('c', 1)] * n)
        else:
            raise Unmodelled('struct format %r' % ch)
    return order, out


def _struct_size(fields):
    return sum(f[1] for f in fields)


@model(struct.unpack)
def struct_unpack(fmt, data):
    if not symbolic(data):
        return struct.unpack(fmt, data)
    if isinstance(data, Opaque):
        raise Unmodelled('struct.unpack of an opaque document')
    order, fields = _parse_fmt(fmt)
    its = V.bitems(data)
    if _struct_size(fields) != len(its):
        raise struct.error('unpack requires a buffer of %d bytes' %
                           _struct_size(fields))
    out, p = [], 0
    for f in fields:
        chunk = mkbytes(its[p:p + f[1]])
        p += f[1]
        if f[0] == 's' or f[0] == 'c':
            out.append(chunk)
        elif f[0] == 'x':
            pass
        elif f[0] == '?':
            out.append(chunk[0] != 0)
        else:
            out.append(int_from_bytes(chunk, order, signed=f[2]))
    return tuple(out)


@model(struct.unpack_from)
def struct_unpack_from(fmt, buffer, offset=0):
    if not symbolic(buffer) and not symbolic(offset):
        return struct.unpack_from(fmt, buffer, offset)
    n = struct.calcsize(fmt)
    offset = int(offset)
    if offset < 0:
        offset += len(buffer)
    if len(buffer) - offset < n:
        raise struct.error('unpack_from requires a buffer of at least %d '
                           'bytes' % (n + offset))
    return struct_unpack(fmt, buffer[offset:offset + n])


@model(struct.pack)
def struct_pack(fmt, *args):
    if not symbolic(args):
        return struct.pack(fmt, *args)
    order, fields = _parse_fmt(fmt)
    out, k = b'', 0
    for f in fields:
        if f[0] == 'x':
            out = out + bytes(f[1])
            continue
        v = args[k]
        k += 1
        if f[0] in 'sc':
            out = out + (v[:f[1]] if len(v) >= f[1] else
                         v + bytes(f[1] - len(v)))
            continue
        try:
            if type(v) in (int, bool):
                out = out + int(v).to_bytes(f[1], order, signed=f[2])
            else:
                out = out + v.to_bytes(f[1], order, signed=f[2])
        except OverflowError:
            raise struct.error('argument out of range')
    return out


@model(struct.Struct)
def struct_Struct(fmt):
    return SymStruct(fmt)


class SymStruct:
    def __init__(self, fmt):
        self.format = fmt
        self.size = struct.calcsize(fmt)

    def unpack(self, data):
        return struct_unpack(self.format, data)

    def unpack_from(self, data, offset=0):
        return struct_unpack_from(self.format, data, offset)

    def pack(self, *a):
        return struct_pack(self.format, *a)


@model(io.BytesIO)
def bytes_io(data=b''):
    if isinstance(data, Opaque):
        return OpaqueIO(data)
    if data is None:
        data = b''
    if V.bitems(data) is None:
        return io.BytesIO(concretise(data, 'BytesIO'))
    return SymBytesIO(data)


class SymStringIO:
    """A text buffer (written from front to back)."""
    __class__ = property(lambda self: io.StringIO)

    def __init__(self, text):
        self.parts = [text] if len(text) else []

    def write(self, t):
        if not isinstance(t, str):
            raise TypeError('string argument expected')
        self.parts.append(t)
        return len(t)

    def writelines(self, ts):
        for t in ts:
            self.write(t)

    def getvalue(self):
        out = ''
        for t in self.parts:
            out = out + t
        return out

    def close(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return None

    def __getattr__(self, n):
        raise Unmodelled('StringIO.' + n)


@model(io.StringIO)
def string_io(text='', newline='\n'):
    if text is None:
        text = ''
    if len(text):
        if symbolic(text):
            raise Unmodelled('StringIO of symbolic text')
        return io.StringIO(text, newline)
    return SymStringIO(text)


class OpaqueIO:
    """A stream over an opaque document (only a decoder can read it)."""
    __class__ = property(lambda self: io.BytesIO)

    def __init__(self, doc):
        self.doc = doc

    def __getattr__(self, n):
        raise Unmodelled('stream over an opaque document: ' + n)

    def read(self, n=-1):
        if type(n) is int and n < 0:
            return self.doc
        raise Unmodelled('partial read of an opaque document')


@model(copy.deepcopy)
def deepcopy(x, memo=None):
    return copy.deepcopy(x, memo)


@model(copy.copy)
def copy_copy(x):
    return copy.copy(x)


# ---------------------------------------------------------------- hashing
def hash_digest(alg, data):
    """Digest of bytes: the real one when concrete, else fresh bytes related
    to every earlier digest by congruence and injectivity."""
    if isinstance(data, str):
        raise TypeError('Strings must be encoded before hashing')
    eng = core.ENG
    n = hashlib.new(alg).digest_size
    if isinstance(data, Opaque):
        key = ('doc', data.ident)
        its = None
    else:
        its = V.bitems(data)
        if its is None:
            raise TypeError('object supporting the buffer API required')
        key = None
    for (a, k, pi, dig, d) in eng.hashes:
        if a != alg:
            continue
        if key is not None and k == key:
            return mkbytes(dig)
        if its is not None and pi is not None and len(pi) == len(its) and \
                V.items_eq(pi, its) is True:
            return mkbytes(dig)
    if its is not None and all(type(x) is int for x in its):
        dig = tuple(hashlib.new(alg, bytes(its)).digest())
    else:
        base = eng.fresh_name('%s' % alg)
        dig = tuple(z3.BitVec('%s[%d]' % (base, i), 8) for i in range(n))
    for (a, k, pi, pd, d) in eng.hashes:
        if a != alg:
            continue
        same = V.items_eq(pd, dig)
        if its is not None and pi is not None and len(pi) == len(its):
            e = V.items_eq(pi, its)
            if e is True:
                eng.assume(same)
            elif e is False:
                eng.assume(V.ebool(V.Not(same)))
            else:
                eng.assume(V.ebool(mkbool(same)) == e
                           if same not in (True, False) else
                           (e if same else z3.Not(e)))
        else:
            eng.assume(V.ebool(V.Not(same)))
    eng.hashes.append((alg, key, its, dig, data))
    return mkbytes(dig)


class SymHash:
    def __init__(self, alg, data=b''):
        self.name = alg
        self.data = data
        h = hashlib.new(alg)
        self.digest_size = h.digest_size
        self.block_size = h.block_size
        if isinstance(data, str):
            raise TypeError('Strings must be encoded before hashing')

    def update(self, d):
        if isinstance(d, str):
            raise TypeError('Strings must be encoded before hashing')
        if not isinstance(self.data, Opaque) and len(self.data) == 0:
            self.data = d
        else:
            self.data = self.data + d

    def digest(self):
        return hash_digest(self.name, self.data)

    def hexdigest(self):
        return self.digest().hex()

    def copy(self):
        return SymHash(self.name, self.data)


def _mk_hash(name):
    def mk(data=b'', **k):
        return SymHash(name, data)
    return mk


for _n in ('sha1', 'sha224', 'sha256', 'sha384', 'sha512', 'md5'):
    MODELS[getattr(hashlib, _n)] = _mk_hash(_n)


@model(hashlib.new)
def hashlib_new(name, data=b'', **k):
    return SymHash(name, data)


def _compare_digest(a, b):
    if not symbolic(a) and not symbolic(b):
        return hmac.compare_digest(a, b)
    ca, cb = a.__class__, b.__class__
    if ca is str and cb is str:
        for x in (a, b):
            if not isinstance(x, Opaque) and not V.SymStr(
                    V.sitems(x)).isascii():
                raise TypeError('comparing strings with non-ASCII characters '
                                'is not supported')
    elif ca not in (bytes, bytearray) or cb not in (bytes, bytearray):
        raise TypeError('unsupported operand types(s) or combination of '
                        'types')
    return a == b


MODELS[hmac.compare_digest] = _compare_digest
try:
    import secrets
    MODELS[secrets.compare_digest] = _compare_digest
except ImportError:  # pragma: no cover
    pass


# ---------------------------------------------------------------- base64
STD = b'ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/'
URL = STD[:62] + b'-_'


_B64 = {}
_CHARS = {}


def _b64_cache():
    return _B64


def b64_char(sextet, alphabet=STD):
    """Character byte of a 6-bit item."""
    if type(sextet) is int:
        return alphabet[sextet]
    hit = _CHARS.get((sextet.get_id(), alphabet))
    if hit is not None:
        return hit[1]
    if len(_CHARS) > 20000:
        _CHARS.clear()
        _B64.clear()
    e = _b64_char(sextet, alphabet)
    _CHARS[sextet.get_id(), alphabet] = (sextet, e)
    return e


def _b64_char(sextet, alphabet):
    s = z3.ZeroExt(2, sextet)
    e = z3.If(z3.ULT(s, 26), s + 65,
              z3.If(z3.ULT(s, 52), s + 71,
                    z3.If(z3.ULT(s, 62), s - 4,
                          z3.If(s == 62, z3.BitVecVal(alphabet[62], 8),
                                z3.BitVecVal(alphabet[63], 8)))))
    _b64_cache()[e.get_id()] = (sextet, alphabet, e)
    V.known_alphabet(e, alphabet)
    return e


def sextets(its):
    """6-bit items of a run of byte items (zero-padded)."""
    out = []
    for i in range(0, len(its), 3):
        c = list(its[i:i + 3])
        n = len(c)
        c += [0] * (3 - n)
        if all(type(x) is int for x in c):
            v = (c[0] << 16) | (c[1] << 8) | c[2]
            q = [(v >> s) & 63 for s in (18, 12, 6, 0)]
        else:
            t = z3.Concat([V._w(x, 8) for x in c])
            q = [V.norm_item(z3.simplify(z3.Extract(s + 5, s, t)))
                 for s in (18, 12, 6, 0)]
        out.append((q, n))
    return out


@model(binascii.hexlify, binascii.b2a_hex)
def hexlify(data, *a):
    if not symbolic(data) or a:
        return binascii.hexlify(concretise(data, 'hexlify'), *a)
    if type(data) is SymStr:
        raise TypeError("a bytes-like object is required, not 'str'")
    return mkbytes(V.sitems(mkbytes(V.bitems(data)).hex()))


def _unhex(its, bad, space):
    out, hi = [], None
    for i, c in enumerate(its):
        v = V.nibble_of(c)
        if v is None and type(c) is not int:
            if V.in_range(c, 48, 57):
                v = V._w(c, 8) - 48
            elif V.in_range(c, 97, 102):
                v = V._w(c, 8) - 87
            elif V.in_range(c, 65, 70):
                v = V._w(c, 8) - 55
            if v is not None:
                v = z3.Extract(3, 0, v)
        if v is None:
            if space and hi is None and V.one_of(
                    c, (9, 10, 11, 12, 13, 32)):
                continue
            raise bad
        if hi is None:
            hi = v
        else:
            out.append(hi << 4 | v if type(hi) is int and type(v) is int
                       else z3.simplify(z3.Concat(V._w(hi, 4), V._w(v, 4))))
            hi = None
    if hi is not None:
        raise bad
    return mkbytes(out)


@model(binascii.unhexlify, binascii.a2b_hex)
def unhexlify(data):
    if not symbolic(data):
        return binascii.unhexlify(data)
    its = V.sitems(data)
    if its is None:
        its = V.bitems(data)
    if len(its) % 2:
        raise binascii.Error('Odd-length string')
    return _unhex(its, binascii.Error('Non-hexadecimal digit found'), False)


@model(bytes.fromhex)
def bytes_fromhex(s):
    if not symbolic(s):
        return bytes.fromhex(s)
    return _unhex(V.sitems(s), ValueError(
        'non-hexadecimal number found in fromhex() arg'), True)


@model(binascii.b2a_base64)
def b2a_base64(data, *, newline=True):
    if not symbolic(data):
        return binascii.b2a_base64(data, newline=newline)
    if isinstance(data, Opaque):
        return b64_opaque(data, STD)
    if data.__class__ is str:
        raise TypeError("a bytes-like object is required, not 'str'")
    out = []
    for q, n in sextets(V.bitems(data)):
        cs = [b64_char(x) for x in q]
        out += cs[:n + 1] + [61] * (3 - n)
    if newline:
        out.append(10)
    return mkbytes(out)


def b64_opaque(data, alphabet, kind=bytes, pads=0):
    ident = ('b64', data.ident, alphabet[62:], pads)
    return Opaque(kind, B64Text(data, alphabet, pads),
                  ident + (('text',) if kind is str else ()))


class B64Text:
    """base64 text of an opaque document; pads: padding characters more than
    due."""

    def __init__(self, data, alphabet, pads=0):
        self.data = data
        self.alphabet = alphabet
        self.pads = pads

    def decode(self, o, encoding='utf-8', errors='strict'):
        return b64_opaque(self.data, self.alphabet, str, self.pads)

    def encode(self, o, encoding='utf-8', errors='strict'):
        return b64_opaque(self.data, self.alphabet, bytes, self.pads)

    def length(self, o):
        return (len(self.data) + 2) // 3 * 4 + self.pads

    def due(self):
        return -len(self.data) % 3

    def a2b(self):
        if self.pads < 0:
            raise binascii.Error('Incorrect padding')
        return self.data

    def item(self, o, i):
        if type(i) is not slice or i.step not in (None, 1) or \
                i.start not in (None, 0) or type(i.stop) is not int:
            return None
        n = len(o)
        b = i.stop if i.stop >= 0 else max(0, n + i.stop)
        if b >= n:
            return o
        body = n - self.pads - self.due()
        if b >= body:
            return b64_opaque(self.data, self.alphabet, o.kind,
                              self.pads - (n - b))
        if b % 4 == 0 and b:
            return b64_opaque(self.data[:b // 4 * 3], self.alphabet, o.kind)
        return None

    def add(self, o, x):
        if type(x) is o.kind and set(x) <= {'=', 61}:
            return b64_opaque(self.data, self.alphabet, o.kind,
                              self.pads + len(x))
        return None

    def method(self, o, name, *a):
        pad = '=' if o.kind is str else b'='
        if name in ('rstrip', 'strip') and a == (pad,):
            return b64_opaque(self.data, self.alphabet, o.kind, -self.due())
        if name in ('strip', 'rstrip', 'lstrip') and not a:
            return o
        if name == 'endswith' and a == (pad,):
            return self.due() + self.pads > 0
        raise Unmodelled('%s() of an opaque document' % name)


def _sextet(c):
    """('pad'|'bad'|sextet) of a character item, forking as needed."""
    if type(c) is int:
        if c == 61:
            return 'pad'
        i = STD.find(c)
        return 'bad' if i < 0 else i
    hit = _b64_cache().get(c.get_id())
    if hit is not None and hit[1][62:] == b'+/':
        return hit[0]
    if mkbool(c == 61):
        return 'pad'
    if V.Or(V.in_range(c, 65, 90), V.in_range(c, 97, 122),
            V.in_range(c, 48, 57), mkbool(c == 43), mkbool(c == 47)):
        e = z3.If(z3.ULE(c, 47), z3.If(c == 43, z3.BitVecVal(62, 8),
                                       z3.BitVecVal(63, 8)),
                  z3.If(z3.ULE(c, 57), c + 4,
                        z3.If(z3.ULE(c, 90), c - 65, c - 71)))
        return z3.Extract(5, 0, e)
    return 'bad'


@model(binascii.a2b_base64)
def a2b_base64(data, *, strict_mode=False):
    if not symbolic(data):
        return binascii.a2b_base64(data, strict_mode=strict_mode)
    if isinstance(data, Opaque):
        if isinstance(data.doc, B64Text):
            return data.doc.a2b()
        raise Unmodelled('base64 of an opaque document')
    if data.__class__ is str:
        data = V.encode_str(data, 'ascii')
    its = V.bitems(data)
    if strict_mode and its and mkbool(V.item_eq(its[0], 61)):
        raise binascii.Error('Leading padding not allowed')
    quad, left, pads, started, out = 0, None, 0, False, []

    def cat(hi, lo):
        if type(hi[0]) is int and type(lo[0]) is int:
            return (hi[0] << lo[1]) | lo[0]
        t = [z3.BitVecVal(x, w) if type(x) is int else x
             for x, w in (hi, lo)]
        return z3.simplify(z3.Concat(t))

    def part(s, hi, lo):
        w = hi - lo + 1
        if type(s) is int:
            return ((s >> lo) & ((1 << w) - 1), w)
        return (V.norm_item(z3.simplify(z3.Extract(hi, lo, s))), w)
    for i, c in enumerate(its):
        s = _sextet(c)
        if type(s) is str and s == 'pad':
            started = True
            if strict_mode and quad == 0:
                raise binascii.Error('Excess padding not allowed')
            if quad >= 2:
                pads += 1
                if quad + pads >= 4:
                    if strict_mode and i + 1 < len(its):
                        raise binascii.Error('Excess data after padding')
                    return mkbytes(out)
            continue
        if type(s) is str:
            if strict_mode:
                raise binascii.Error('Only base64 data is allowed')
            continue
        if strict_mode and started:
            raise binascii.Error('Discontinuous padding not allowed')
        pads = 0
        if quad == 0:
            left = part(s, 5, 0)
        elif quad == 1:
            out.append(cat(left, part(s, 5, 4)))
            left = part(s, 3, 0)
        elif quad == 2:
            out.append(cat(left, part(s, 5, 2)))
            left = part(s, 1, 0)
        else:
            out.append(cat(left, part(s, 5, 0)))
        quad = (quad + 1) % 4
    if quad == 1:
        raise binascii.Error('Invalid base64-encoded string: number of data '
                             'characters cannot be 1 more than a multiple '
                             'of 4')
    if quad:
        raise binascii.Error('Incorrect padding')
    return mkbytes(out)


def b64_translate(c, table):
    """Translate a character keeping its known sextet when possible."""
    hit = _b64_cache().get(c.get_id()) if type(c) is not int else None
    if hit is None:
        return None
    new = bytes(table[x] for x in hit[1])
    if new[:62] == STD[:62] and new[62:] in (b'+/', b'-_'):
        return b64_char(hit[0], new)
    return None


_old_table = V._table


def _table(c, table):
    if type(c) is not int and table is not None:
        r = b64_translate(c, table)
        if r is not None:
            return r
    return _old_table(c, table)


V._table = _table


def _map_char(c, m):
    if type(c) is int:
        return m.get(c, c)
    if c.size() != 8:
        if c.decl().kind() != z3.Z3_OP_ZERO_EXT or c.arg(0).size() != 8:
            return None
        c = c.arg(0)
    if c.get_id() not in _b64_cache():
        return None
    if any(x > 255 or y > 255 for x, y in m.items()):
        return None
    return b64_translate(c, [m.get(i, i) for i in range(256)])


V.map_char = _map_char


def _utf8_keep(c):
    return c


# ---------------------------------------------------------------- json
def _reparse(e):
    raise e


class JSONText:
    """A JSON document: kind and structure chosen on demand."""
    KINDS = ('ok', 'not_utf8', 'not_json', 'utf16', 'bom', 'hugeint', 'deep',
             'surrogate')

    def __init__(self, kind, structure, size=None):
        self._kind = kind             # callable -> str
        self._structure = structure   # callable -> value
        self.size = size

    def kind(self):
        return self._kind()

    def length(self, o):
        k = self.kind()
        n = {'hugeint': 5008, 'deep': 100000}.get(k, self.size)
        if n is None:
            return None
        if o.kind is str:
            n -= {'bom': 2}.get(k, 0)
        return n

    def _with(self, v):
        s = self._structure()
        if type(s) is V.SymDict:
            return V.SymDict(list(s.slots) + [Slot('_', v, True)])
        return dict(s, _=v)

    def head(self, o):
        """The first eight bytes (characters)."""
        k = self.kind()
        if self.size is None or o.kind is str and k in (
                'bom', 'not_utf8', 'surrogate'):
            return None
        if k in ('hugeint', 'deep', 'not_json'):
            return {'hugeint': b'{"n": 10', 'deep': b'[' * 8,
                    'not_json': b'{"type":'}[k]
        t = b' '
        if k in ('ok', 'bom', 'not_utf8', 'utf16', 'surrogate') and self._structure:
            if k == 'surrogate' or self._structure().__class__ is dict:
                t = b'{'
        t += b' ' * 7
        return {'bom': b'\xef\xbb\xbf' + t, 'not_utf8': b'\xff' + t,
                'utf16': t.decode().encode('utf-16-le')}.get(k, t)[:8]

    def item(self, o, i):
        h = self.head(o)
        if type(i) is int:
            if h is None or not 0 <= i < 8:
                return None
            return h[i] if o.kind is bytes else chr(h[i])
        if type(i) is not slice or i.step not in (None, 1):
            return None
        a, b = i.start or 0, i.stop
        n = self.length(o)
        if n is None or type(a) is not int or a < 0 or \
                type(b) not in (int, type(None)):
            return None
        if b is None or b > n:
            b = n
        if b < 0:
            b = max(0, n + b)
        if a == 0 and b == n:
            return o
        if b <= 8 and h is not None:
            return h[a:b] if o.kind is bytes else h[a:b].decode('latin-1')
        k = self.kind()
        if a == 0 and k in ('ok', 'not_json', 'not_utf8', 'bom', 'utf16'):
            # the end is missing
            return Opaque(o.kind, JSONText(
                lambda: 'not_utf8' if k == 'not_utf8' else 'not_json', None),
                o.ident + ('cut', b))
        if a == 3 and b == n and k == 'bom' and o.kind is bytes:
            return Opaque(o.kind, JSONText(lambda: 'ok', self._structure,
                                           n - 3), o.ident + ('nobom',))
        return None

    def method(self, o, name, *a):
        h = self.head(o)
        if name == 'startswith' and len(a) == 1 and h is not None and \
                a[0].__class__ in (bytes, str, tuple):
            ps = a[0] if a[0].__class__ is tuple else (a[0],)
            hh = h if o.kind is bytes else h.decode('latin-1')
            if all(type(p) is o.kind and len(p) <= 8 for p in ps):
                return hh.startswith(ps)
        if name == 'removeprefix' and len(a) == 1 and \
                type(a[0]) is o.kind:
            s = self.method(o, 'startswith', a[0])
            return o[len(a[0]):] if s else o
        raise Unmodelled('%s() of an opaque document' % name)

    def decode(self, o, encoding='utf-8', errors='strict'):
        enc = V._codec(encoding)
        k = self.kind()
        if enc in ('utf8', 'utf-8', 'u8', 'utf-8-sig'):
            if k == 'surrogate':
                if errors == 'strict':
                    raise UnicodeDecodeError('utf-8', b'\xed', 0, 1,
                                             'invalid continuation byte')
                if type(errors) is not str:
                    raise Unmodelled('decoding errors')
                v = b'\xed\xa0\x80'.decode('utf-8', errors)
                if '\\' in v:
                    raise Unmodelled('decoding errors')
                return Opaque(str, JSONText(
                    lambda: 'ok', lambda: self._with(v)),
                    o.ident + ('lossy', errors))
            if k == 'not_utf8':
                if errors == 'ignore':
                    return Opaque(str, JSONText(
                        lambda: 'ok', self._structure,
                        None if self.size is None else self.size - 1),
                        o.ident + ('ignored',))
                if errors != 'strict':
                    return Opaque(str, JSONText(lambda: 'not_json', None),
                                  o.ident + ('lossy',))
                raise UnicodeDecodeError('utf-8', b'\xff', 0, 1,
                                         'invalid start byte')
            if k == 'bom' and enc == 'utf-8-sig':
                return Opaque(str, JSONText(
                    lambda: 'ok', self._structure,
                    None if self.size is None else self.size - 3),
                              o.ident + ('nobom',))
            return Opaque(str, self, o.ident + ('text',))
        if enc in ('latin-1', 'latin1', 'iso-8859-1') and k in (
                'not_json', 'hugeint', 'deep'):
            return Opaque(str, self, o.ident + ('text',))
        raise Unmodelled('decoding a JSON document as ' + enc)

    def encode(self, o, encoding='utf-8', errors='strict'):
        if o.ident[-1:] == ('text',) and V._codec(encoding) in (
                'utf8', 'utf-8', 'u8'):
            return Opaque(bytes, self, o.ident[:-1])
        raise Unmodelled('encoding a JSON document')

    def loads(self, o):
        k = self.kind()
        if k in ('ok',):
            return fresh_tree(self._structure())
        if k == 'surrogate':
            # json.loads decodes bytes with 'surrogatepass'
            return fresh_tree(self._with('\ud800'))
        if k == 'not_utf8':
            raise UnicodeDecodeError('utf-8', b'\xff', 0, 1,
                                     'invalid start byte')
        if k in ('bom', 'utf16') and o.kind is bytes:
            return fresh_tree(self._structure())
        if k == 'hugeint':
            raise ValueError('Exceeds the limit (4300 digits) for integer '
                             'string conversion')
        if k == 'deep':
            raise RecursionError('maximum recursion depth exceeded while '
                                 'decoding a JSON object')
        raise json.JSONDecodeError('Expecting value', '?', 0)


def fresh_tree(v):
    """A copy of a decoded document: every decoding makes new objects."""
    t = type(v)
    if t is dict:
        return {k: fresh_tree(x) for k, x in v.items()}
    if t is list:
        return [fresh_tree(x) for x in v]
    if t is V.SymDict:
        return V.SymDict([V.Slot(s.key, lambda s=s: fresh_tree(s.get()),
                                 s.present) for s in v.slots])
    if t is V.LazySeq:
        return V.LazySeq([lambda i=i: fresh_tree(v._get(i))
                          for i in range(len(v))], v.kind)
    return v


@model(json.loads)
def json_loads(s, **k):
    if isinstance(s, Opaque) and isinstance(s.doc, JSONText):
        if k:
            if set(k) - {'object_pairs_hook', 'object_hook', 'cls',
                         'strict'} or k.get('cls') is not None:
                raise Unmodelled('json.loads options')
        return _hooked(s.doc.loads(s), k.get('object_pairs_hook'),
                       k.get('object_hook'))
    if isinstance(s, Opaque) and isinstance(s.doc, DerivedText) and not k:
        return json_copy(s.doc.value)
    if is_sym(s) and not isinstance(s, Opaque) and s.__class__ not in (
            str, bytes):
        raise TypeError('the JSON object must be str, bytes or bytearray, '
                        'not ' + s.__class__.__name__)
    return json.loads(concretise(s, 'json.loads'), **k)


def _hooked(v, pairs, hook):
    if pairs is None and hook is None:
        return v
    if type(v) in (list, tuple, LazySeq):
        return [_hooked(x, pairs, hook) for x in v]
    from .rt import call, dict_
    if type(v) in (dict, V.SymDict):
        its = [(k, _hooked(x, pairs, hook)) for k, x in v.items()]
        if pairs is not None:
            return call(pairs, its)
        return call(hook, dict_(its))
    return v


def json_copy(v):
    """What json.loads(json.dumps(v)) is."""
    t = type(v)
    if v is None or t in (bool, int, float, str, V.SymBool, V.SymInt,
                          V.SymStr, V.Deferred):
        return v
    if t in (list, tuple):
        return [json_copy(x) for x in v]
    if t is dict and all(type(k) in (str, V.SymStr) for k in v):
        from .rt import dict_
        return dict_([(k, json_copy(x)) for k, x in v.items()])
    if isinstance(v, (bytes, bytearray, memoryview, set, frozenset)) or \
            t is V.SSet:
        raise TypeError('Object of type %s is not JSON serializable' %
                        v.__class__.__name__)
    raise Unmodelled('json.dumps of ' + t.__name__)


@model(json.load)
def json_load(fp, **k):
    return json_loads(fp.read(), **k)


_derived = [0]


class DerivedText:
    def __init__(self, value):
        self.value = value

    def decode(self, o, *a):
        return Opaque(str, self, o.ident + ('t',))

    def encode(self, o, *a):
        return Opaque(bytes, self, o.ident + ('b',))


@model(json.dumps)
def json_dumps(x, **k):
    if not symbolic(x):
        return json.dumps(x, **k)
    if set(k) - {'separators', 'sort_keys', 'indent', 'ensure_ascii'}:
        raise Unmodelled('json.dumps options')
    json_copy(x)
    n = core.ENG.fresh_name('json.dumps')
    return Opaque(str, DerivedText(x), (n,))


# ---------------------------------------------------------------- cbor
class CBORBytes:
    """An encoded CBOR document: kind and structure chosen on demand."""

    def __init__(self, kind, structure):
        self._kind = kind
        self._structure = structure

    def decode(self, o, *a):
        raise Unmodelled('decoding a CBOR document as text')

    encode = decode

    def nonempty(self):
        return self._kind() != 'eof'

    def length(self, o):
        k = self._kind()
        if k != 'ok':
            return len(CBOR_BAD[k][0])
        return len(cbor_encode(self._structure()))

    def item(self, o, i):
        if type(i) is slice and i.step in (None, 1) and i.start in (None, 0) \
                and type(i.stop) is int:
            n = self.length(o)
            b = i.stop if i.stop >= 0 else max(0, n + i.stop)
            if b >= n:
                return o
            if b and self._kind() == 'ok':
                return Opaque(bytes, CBORBytes(lambda: 'trunc', None),
                              o.ident + ('cut', b))
        return None

    def loads(self):
        k = self._kind()
        if k == 'ok':
            return fresh_tree(self._structure())
        raise cbor_error(k)


# what cbor2 5.2.0 raises for each malformed document (validated by replay)
CBOR_BAD = {
    'eof': (b'', lambda: cbor2.CBORDecodeEOF('premature end of stream')),
    'trunc': (b'\xa1\x63fmt', lambda: cbor2.CBORDecodeEOF(
        'premature end of stream')),
    'value': (b'\x1c', lambda: cbor2.CBORDecodeValueError('unknown')),
    'system': (b'\xfc', lambda: SystemError('returned NULL')),
    'utf8': (b'a\x80', lambda: UnicodeDecodeError(
        'utf-8', b'\x80', 0, 1, 'invalid start byte')),
    'type': (b'\xd8#\x01', lambda: TypeError('first argument must be string')),
    'overflow': (b'\xc1\xfb\x7f\xf0' + bytes(6), lambda: OverflowError(
        'cannot convert float infinity to integer')),
    'zerodiv': (b'\xd8\x1e\x82\x01\x00', lambda: ZeroDivisionError(
        'Fraction(1, 0)')),
    'regex': (b'\xd8#a(', lambda: re.error('missing )')),
    'valueerr': (b'\xd8%`', lambda: ValueError('bytes is not a 16-char '
                                               'string')),
    'memory': (b'{' + b'\x0f' * 8, lambda: MemoryError()),
    'deep': (b'\x81' * 100000, lambda: RecursionError(
        'maximum recursion depth exceeded')),
}


def cbor_error(kind):
    return CBOR_BAD[kind][1]()


_BREAK = object()


def _has_dict(x):
    return any(v.__class__ is dict or type(v) is tuple and _has_dict(v)
               for v in x)


class SymCBOR:
    """cbor2-compatible decoder over symbolic bytes.

    Tags, indefinite lengths, half/single/double floats and simple values
    other than false/true/null/undefined are outside the bounds (Cut) when
    their header byte is symbolic."""

    def __init__(self, fp):
        self.fp = fp
        self.depth = 0

    def read(self, n):
        b = self.fp.read(n)
        if len(b) != n:
            raise cbor2.CBORDecodeEOF(
                'premature end of stream (expected to read %d bytes, got %d '
                'instead)' % (n, len(b)))
        return b

    def header(self):
        c = self.read(1)[0]
        if type(c) is int:
            return c >> 5, c & 31
        e = z3.Extract(7, 0, c.e)
        for m in range(8):
            if mkbool(z3.Extract(7, 5, e) == m):
                break
        sub = z3.Extract(4, 0, e)
        if m == 7:
            for s in (20, 21, 22, 23):
                if mkbool(sub == s):
                    return m, s
            raise Cut('symbolic simple/float/break CBOR header')
        if m == 6:
            raise Cut('symbolic CBOR tag')
        if mkbool(z3.ULT(sub, 24)):
            return m, sub
        for s in (24, 25, 26, 27):
            if mkbool(sub == s):
                return m, s
        if mkbool(sub == 31):
            raise Cut('indefinite-length CBOR with a symbolic header')
        raise cbor2.CBORDecodeValueError(
            'unknown unsigned integer subtype 0x1c')

    def length(self, sub):
        """Value of the argument, as int or SymInt."""
        if type(sub) is not int:
            return V.uint(sub)
        if sub < 24:
            return sub
        if sub in (24, 25, 26, 27):
            return int_from_bytes(self.read(1 << (sub - 24)), 'big')
        if sub == 31:
            raise Unmodelled('indefinite-length CBOR')
        raise cbor2.CBORDecodeValueError(
            'unknown unsigned integer subtype 0x%x' % sub)

    def count(self, n, what):
        """Concrete length, forking over what fits; longer runs out."""
        if type(n) is int:
            return n
        rest = len(self.fp.data) - self.fp.p
        for k in range(rest + 1):
            if n == k:
                return k
        # larger than everything that is left
        if n >= 1 << 62:
            raise Cut('CBOR %s of 2**62 or more' % what)
        if what == 'array':
            if n >= 65536:
                raise Cut('CBOR array header of 65536 or more elements')
        return rest + 1

    def decode(self, immutable=False):
        m, sub = self.header()
        if m == 0:
            return self.length(sub)
        if m == 1:
            return -1 - self.length(sub)
        if m == 2:
            return self.read(self.count(self.length(sub), 'string'))
        if m == 3:
            b = self.read(self.count(self.length(sub), 'string'))
            return b.decode('utf-8')
        if m == 4:
            n = self.count(self.length(sub), 'array')
            self.depth += 1
            if self.depth > 8:
                raise Cut('CBOR nesting beyond 8')
            r = [self.decode(immutable) for _ in range(n)]
            self.depth -= 1
            return tuple(r) if immutable else r
        if m == 5:
            n = self.count(self.length(sub), 'map')
            self.depth += 1
            if self.depth > 8:
                raise Cut('CBOR nesting beyond 8')
            d = SymDict([])
            for _ in range(n):
                k = self.decode(True)
                if k.__class__ is dict or (
                        type(k) is tuple and _has_dict(k)):
                    raise Cut('CBOR map used as a map key')
                d[k] = self.decode()
            self.depth -= 1
            if not symbolic([s.key for s in d.slots]):
                return {s.key: s.get() for s in d.slots}
            return d
        if m == 6:
            tag = self.length(sub)
            if type(tag) is int and tag in (2, 3):
                v = self.decode(immutable)
                if v.__class__ is not bytes:
                    raise Unmodelled('CBOR bignum content')
                v = int_from_bytes(v, 'big')
                return v if tag == 2 else -1 - v
            raise Unmodelled('CBOR tag')
        if type(sub) is int and sub in (20, 21, 22, 23):
            return {20: False, 21: True, 22: None,
                    23: cbor2.undefined}[sub]
        if sub in (25, 26, 27):
            b = concretise(self.read(1 << (sub - 24)), 'CBOR float')
            return cbor2.loads(bytes([0xe0 | sub]) + b)
        raise Unmodelled('CBOR simple value')


@model(cbor2.loads)
def cbor_loads(s, **k):
    if isinstance(s, Opaque):
        if isinstance(s.doc, CBORBytes):
            return s.doc.loads()
        raise Unmodelled('CBOR of another opaque document')
    if isinstance(s, SymBytes):
        return SymCBOR(SymBytesIO(s)).decode()
    return cbor2.loads(concretise(s, 'cbor2.loads'), **k)


@model(cbor2.load)
def cbor_load(fp, **k):
    if type(fp) is SymBytesIO:
        rest = fp.data[fp.p:]
        if all(type(x) is int for x in rest):
            real = io.BytesIO(bytes(rest))
            try:
                return cbor2.load(real, **k)
            finally:
                fp.p += real.tell()
        return SymCBOR(fp).decode()
    if isinstance(fp, OpaqueIO):
        return cbor_loads(fp.doc)
    return cbor2.load(fp, **k)


class SymDecoder:
    def __init__(self, fp, **k):
        self.fp = fp

    def decode(self):
        return cbor_load(self.fp)

    def decode_from_bytes(self, buf):
        return cbor_loads(buf)


class SymEncoder:
    def __init__(self, fp, k):
        self.fp, self.k = fp, k

    def encode(self, x):
        b = cbor_dumps(x, **self.k)
        self.fp.write(b)

    def encode_to_bytes(self, x):
        return cbor_dumps(x, **self.k)


@model(cbor2.dump)
def cbor_dump(x, fp, **k):
    fp.write(cbor_dumps(x, **k))


MODELS[cbor2.CBOREncoder] = lambda fp, **k: SymEncoder(fp, k)
MODELS[cbor2.CBORDecoder] = lambda fp, **k: (
    SymDecoder(fp) if is_sym(fp) or isinstance(fp, OpaqueIO)
    else cbor2.CBORDecoder(fp, **k))


def _hdr(major, n):
    """Header for a length/argument that may be symbolic."""
    if type(n) is int:
        for k, lim in ((None, 24), (24, 1 << 8), (25, 1 << 16),
                       (26, 1 << 32), (27, 1 << 64)):
            if n < lim:
                if k is None:
                    return bytes([major << 5 | n])
                return bytes([major << 5 | k]) + n.to_bytes(
                    1 << (k - 24), 'big')
        raise Unmodelled('CBOR bignum')
    for k, lim in ((None, 24), (24, 1 << 8), (25, 1 << 16), (26, 1 << 32),
                   (27, 1 << 64)):
        if n < lim:
            if k is None:
                b = n.to_bytes(1, 'big')
                it = V.bitems(b)[0]
                return mkbytes([z3.simplify((major << 5) | it)])
            return bytes([major << 5 | k]) + n.to_bytes(1 << (k - 24), 'big')
    raise Unmodelled('CBOR bignum')


def cbor_encode(x):
    c = x.__class__
    if c is bool:
        if type(x) is SymBool:
            x = bool(x)
        return b'\xf5' if x else b'\xf4'
    if c is int:
        if type(x) is int and not -1 << 64 <= x < 1 << 64:
            return cbor2.dumps(x)
        if x >= 0:
            return _hdr(0, x)
        return _hdr(1, -1 - x)
    if c is bytes:
        if isinstance(x, Opaque):
            raise Unmodelled('encoding an opaque document')
        return _hdr(2, len(x)) + x
    if c is str:
        b = x.encode('utf-8')
        return _hdr(3, len(b)) + b
    if c in (list, tuple):
        out = _hdr(4, len(x))
        for v in x:
            out = out + cbor_encode(v)
        return out
    if c is dict:
        items = list(x.items())
        out = _hdr(5, len(items))
        for k, v in items:
            out = out + cbor_encode(k) + cbor_encode(v)
        return out
    if symbolic(x):
        raise cbor2.CBOREncodeTypeError('cannot serialize type %s' %
                                        c.__name__)
    return cbor2.dumps(x)


@model(cbor2.dumps)
def cbor_dumps(x, **k):
    if not symbolic(x):
        return cbor2.dumps(x, **k)
    if k.get('canonical'):
        raise Unmodelled('canonical CBOR encoding')
    return cbor_encode(x)


# ---------------------------------------------------------------- regex
class _RE:
    """Backtracking matcher over symbolic text, driven by sre_parse."""

    def __init__(self, pattern, flags=0):
        self.pattern = pattern
        self.tree = sre_parse.parse(pattern, flags)
        self.flags = self.tree.state.flags
        self.is_bytes = isinstance(pattern, bytes)

    def char(self, op, av, c):
        ic = self.flags & re.IGNORECASE
        if op is sre.LITERAL:
            r = self.eq(c, av, ic)
        elif op is sre.NOT_LITERAL:
            r = not self.eq(c, av, ic)
        elif op is sre.ANY:
            r = bool(self.flags & re.DOTALL) or not self.eq(c, 10, False)
        elif op is sre.IN:
            r = self.in_set(av, c, ic)
        else:
            raise Unmodelled('regex %s' % op)
        return r

    def eq(self, c, v, ic):
        if ic and chr(v).isalpha():
            return bool(V.one_of(c, {ord(chr(v).lower()),
                                     ord(chr(v).upper())}))
        return bool(mkbool(V.item_eq(c, v)))

    def in_set(self, av, c, ic):
        neg = False
        for op, a in av:
            if op is sre.NEGATE:
                neg = True
            elif op is sre.LITERAL:
                if self.eq(c, a, ic):
                    return not neg
            elif op is sre.RANGE:
                if V.in_range(c, a[0], a[1]):
                    return not neg
                if ic:
                    lo, hi = chr(a[0]), chr(a[1])
                    if lo.isalpha() and hi.isalpha() and (
                            V.in_range(c, ord(lo.swapcase()),
                                       ord(hi.swapcase()))):
                        return not neg
            elif op is sre.CATEGORY:
                if self.category(a, c):
                    return not neg
            else:
                raise Unmodelled('regex set %s' % op)
        return neg

    def category(self, a, c):
        name = str(a)
        neg = 'NOT' in name
        if type(c) is not int and not self.is_bytes and not mkbool(
                V.ebool(V._ule(c, 127))):
            v, = core.ENG.pick([c], 'regex category on a non-ASCII character')
            c = v
        if type(c) is int:
            m = re.match({'DIGIT': r'\d', 'SPACE': r'\s', 'WORD': r'\w'}[
                name.split('_')[-1]], chr(c))
            r = bool(m)
        elif 'DIGIT' in name:
            r = bool(V.in_range(c, 48, 57))
        elif 'SPACE' in name:
            r = bool(V.Or(V.in_range(c, 9, 13), V.item_eq(c, 32),
                          V.in_range(c, 28, 31)))
        elif 'WORD' in name:
            r = bool(V.Or(V.in_range(c, 48, 57), V.in_range(c, 65, 90),
                          V.in_range(c, 97, 122), V.item_eq(c, 95)))
        else:
            raise Unmodelled('regex category')
        return r != neg

    def run(self, nodes, its, i, groups, k):
        """Match nodes at i, then continuation k(i, groups)."""
        if not nodes:
            return k(i, groups)
        (op, av), rest = nodes[0], nodes[1:]

        def cont(j, g):
            return self.run(rest, its, j, g, k)
        if op in (sre.LITERAL, sre.NOT_LITERAL, sre.ANY, sre.IN):
            if i < len(its) and self.char(op, av, its[i]):
                return cont(i + 1, groups)
            return None
        if op is sre.BRANCH:
            for alt in av[1]:
                r = self.run(list(alt), its, i, groups, cont)
                if r is not None:
                    return r
            return None
        if op is sre.SUBPATTERN:
            gid, add, del_, p = av
            if add or del_:
                raise Unmodelled('regex inline flags')

            def close(j, g):
                if gid is not None:
                    g = dict(g)
                    g[gid] = (i, j)
                return cont(j, g)
            return self.run(list(p), its, i, groups, close)
        if op in (sre.MAX_REPEAT, sre.MIN_REPEAT):
            lo, hi, p = av
            p = list(p)

            def rep(n, j, g, last):
                def again(j2, g2):
                    if j2 == j and n >= lo:
                        return None
                    return rep(n + 1, j2, g2, j)
                if n < lo:
                    return self.run(p, its, j, g, again)
                more = hi is sre.MAXREPEAT or n < hi
                if op is sre.MAX_REPEAT:
                    if more:
                        r = self.run(p, its, j, g, again)
                        if r is not None:
                            return r
                    return cont(j, g)
                r = cont(j, g)
                if r is not None:
                    return r
                return self.run(p, its, j, g, again) if more else None
            return rep(0, i, groups, -1)
        if op is sre.AT:
            name = str(av)
            if name in ('AT_BEGINNING', 'AT_BEGINNING_STRING'):
                ok = i == 0
            elif name == 'AT_END_STRING':
                ok = i == len(its)
            elif name == 'AT_END':
                ok = i == len(its) or (i == len(its) - 1 and
                                       self.eq(its[i], 10, False))
            elif name in ('AT_BOUNDARY', 'AT_NON_BOUNDARY'):
                def word(j):
                    return 0 <= j < len(its) and self.category(
                        'CATEGORY_WORD', its[j])
                ok = (word(i - 1) != word(i)) == (name == 'AT_BOUNDARY')
            else:
                raise Unmodelled('regex ' + name)
            return cont(i, groups) if ok else None
        if op in (sre.ASSERT, sre.ASSERT_NOT):
            d, p = av
            p = list(p)
            if d < 0:
                w = sre_parse.SubPattern.getwidth(av[1])
                if w[0] != w[1]:
                    raise Unmodelled('regex lookbehind')
                j = i - w[0]
                r = None if j < 0 else self.run(
                    p, its, j, groups, lambda e, g: (e, g))
            else:
                r = self.run(p, its, i, groups, lambda e, g: (e, g))
            if (r is not None) == (op is sre.ASSERT):
                return cont(i, groups)
            return None
        if op is sre.GROUPREF:
            a, b = groups[av]
            sub = its[a:b]
            if i + len(sub) <= len(its) and mkbool(
                    V.items_eq(its[i:i + len(sub)], sub)):
                return cont(i + len(sub), groups)
            return None
        raise Unmodelled('regex %s' % op)

    def match_at(self, its, i, full=False):
        def done(j, g):
            if full and j != len(its):
                return None
            return (i, j, g)
        return self.run(list(self.tree), its, i, {}, done)


class SymMatch:
    def __init__(self, rx, s, res):
        self.rx, self.string = rx, s
        self.s0, self.e0, self.g = res
        self.re = rx

    def _span(self, k):
        if isinstance(k, str):
            k = self.rx.tree.state.groupdict[k]
        if k == 0:
            return self.s0, self.e0
        if k > self.rx.tree.state.groups - 1:
            raise IndexError('no such group')
        return self.g.get(k, (-1, -1))

    def _get(self, k):
        a, b = self._span(k)
        return None if a < 0 else self.string[a:b]

    def group(self, *ks):
        if not ks:
            return self._get(0)
        if len(ks) == 1:
            return self._get(ks[0])
        return tuple(self._get(k) for k in ks)

    __getitem__ = _get

    def groups(self, default=None):
        return tuple(default if self._get(k) is None else self._get(k)
                     for k in range(1, self.rx.tree.state.groups))

    def groupdict(self, default=None):
        return {n: self._get(k) for n, k in
                self.rx.tree.state.groupdict.items()}

    def start(self, k=0):
        return self._span(k)[0]

    def end(self, k=0):
        return self._span(k)[1]

    def span(self, k=0):
        return self._span(k)


def _its(s):
    if isinstance(s, Opaque):
        raise Unmodelled('regex over an opaque document')
    return V.sitems(s) if s.__class__ is str else V.bitems(s)


def _finditer(rx, s):
    its = _its(s)
    i = 0
    prev_empty_at = -1
    while i <= len(its):
        r = rx.match_at(its, i)
        if r is None or (r[1] == r[0] and False):
            i += 1
            continue
        yield SymMatch(rx, s, r)
        i = r[1] if r[1] > r[0] else i + 1


def _compiled(p, flags=0):
    if isinstance(p, re.Pattern):
        return _RE(p.pattern, p.flags & ~re.UNICODE)
    return _RE(p, flags)


def _re_call(name):
    real = getattr(re, name)

    def run(pattern, *a, **k):
        if not symbolic(a) and not symbolic(k):
            return real(pattern, *a, **k)
        flags = k.pop('flags', 0)
        if name in ('match', 'fullmatch', 'search', 'findall', 'finditer'):
            s = a[0] if a else k.pop('string')
            if len(a) > 1:
                flags = a[1]
            rx = _compiled(pattern, flags)
            its = _its(s)
            if name == 'match':
                r = rx.match_at(its, 0)
                return None if r is None else SymMatch(rx, s, r)
            if name == 'fullmatch':
                r = rx.match_at(its, 0, True)
                return None if r is None else SymMatch(rx, s, r)
            if name == 'search':
                for m in _finditer(rx, s):
                    return m
                return None
            if name == 'finditer':
                return _finditer(rx, s)
            out = []
            for m in _finditer(rx, s):
                g = m.groups()
                out.append(m.group() if not g else
                           g[0] if len(g) == 1 else g)
            return out
        if name == 'split':
            s = a[0] if a else k.pop('string')
            maxsplit = a[1] if len(a) > 1 else k.pop('maxsplit', 0)
            if len(a) > 2:
                flags = a[2]
            rx = _compiled(pattern, flags)
            out, last, n = [], 0, 0
            for m in _finditer(rx, s):
                if maxsplit and n >= maxsplit:
                    break
                out.append(s[last:m.start()])
                out.extend(m.groups())
                last = m.end()
                n += 1
            out.append(s[last:])
            return out
        if name in ('sub', 'subn'):
            repl, s = a[0], a[1]
            count = a[2] if len(a) > 2 else k.pop('count', 0)
            if len(a) > 3:
                flags = a[3]
            rx = _compiled(pattern, flags)
            out, last, n = s[:0], 0, 0
            for m in _finditer(rx, s):
                if count and n >= count:
                    break
                out = out + s[last:m.start()]
                if callable(repl):
                    out = out + repl(m)
                else:
                    out = out + _expand(repl, m)
                last = m.end()
                n += 1
            out = out + s[last:]
            return out if name == 'sub' else (out, n)
        return real(pattern, *[concretise(x, 're') for x in a], **k)
    return run


def _expand(repl, m):
    if '\\' not in repl:
        return repl
    out = ''
    i = 0
    while i < len(repl):
        if repl[i] == '\\' and i + 1 < len(repl):
            c = repl[i + 1]
            if c.isdigit():
                out = out + (m.group(int(c)) or '')
                i += 2
                continue
            if c == 'g':
                j = repl.index('>', i)
                g = repl[i + 3:j]
                out = out + (m.group(int(g) if g.isdigit() else g) or '')
                i = j + 1
                continue
            out = out + {'n': '\n', 't': '\t'}.get(c, c)
            i += 2
            continue
        out = out + repl[i]
        i += 1
    return out


for _n in ('match', 'fullmatch', 'search', 'split', 'sub', 'subn', 'findall',
           'finditer'):
    MODELS[getattr(re, _n)] = _re_call(_n)


class SymPattern:
    def __init__(self, p, flags=0):
        self.p = re.compile(p, flags)
        self.pattern = self.p.pattern
        self.flags = self.p.flags

    def __getattr__(self, name):
        f = _re_call(name)
        return lambda *a, **k: f(self.p, *a, **k)


@model(re.compile)
def re_compile(p, flags=0):
    if isinstance(p, re.Pattern):
        return SymPattern(p.pattern, p.flags & ~re.UNICODE)
    return SymPattern(p, flags)


@model(re.escape)
def re_escape(p):
    return re.escape(concretise(p, 're.escape'))
