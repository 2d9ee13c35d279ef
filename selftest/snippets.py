"""Idioms on which the models of the engine are compared with the real
interpreter: every function takes symbolic arguments named by its signature
(b4: 4 bytes, t3: 3 characters, a2: 2 ASCII characters, i: an int in
-300..70000, u: an int in 0..255, p: a bool)."""
import base64
import binascii
import collections
import functools
import hashlib
import hmac
import io
import itertools
import json
import operator
import re
import string
import struct
import textwrap
from enum import Enum
from urllib.parse import urlparse, urlsplit, quote, unquote

import cbor2


class E2(Enum):
    A = 1
    B = 70000
    C = -7


# hexadecimal
def hex_int(b4): return int(b4.hex(), 16)
def hex_str(b4): return b4.hex()
def hex_fmt(b4): return ''.join('{:02x}'.format(x) for x in b4)
def hex_pct(b4): return ''.join('%02X' % x for x in b4)
def hex_f(u): return f'{u:x}'
def hexlify(b4): return binascii.hexlify(b4)
def unhex(a4): return binascii.unhexlify(a4)
def fromhex(a4): return bytes.fromhex(a4)
def roundhex(b4): return bytes.fromhex(b4.hex()) == b4
def int16(a3): return int(a3, 16)
def int10(a3): return int(a3)


# integers and bytes
def ib_big(b4): return int.from_bytes(b4, 'big')
def ib_little(b4): return int.from_bytes(b4, byteorder='little')
def ib_signed(b4): return int.from_bytes(b4, 'big', signed=True)
def to_b(u): return u.to_bytes(2, 'big')
def to_b4(i): return i.to_bytes(2, 'big')
def to_bs(i): return i.to_bytes(4, 'little', signed=True)
def bit_len(i): return i.bit_length()
def absneg(i): return abs(-i)
def shifts(i): return (i << 3, i >> 2, i & 0xff, i | 1, i ^ 5, ~i)
def divs(i): return (i // 7, i % 7, divmod(i, -5), -i // 3)
def tern(i): return 'neg' if i < 0 else ('zero' if not i else 'pos')
def minmax(i, u): return (min(i, u), max(i, u, 4))
def st_unpack(b4): return struct.unpack('>HBB', b4)
def st_unpack2(b8): return struct.unpack('<iI', b8)
def st_pack(u, i): return struct.pack('>BI', u, i)
def st_from(b8): return struct.Struct('>I').unpack_from(b8, 2)
def sum_b(b4): return sum(b4)
def cmp_b(b4): return (b4 < b'abcd', b4 == b'\0\0\0\0', b4 != b'abcd')
def slices(b8): return (b8[1:3], b8[-3:], b8[:-1], b8[::-1], b8[::2], b8[9:])
def idx(b4): return (b4[0], b4[-1])
def badidx(b4): return b4[4]
def find(b4): return (b4.find(b'a'), b'b' in b4, 98 in b4, b4.count(b'a'))
def splitb(b4): return b4.split(b'a')
def partb(b4): return b4.partition(b'.')
def replb(b4): return b4.replace(b'a', b'bc')
def stripb(b4): return (b4.strip(), b4.lstrip(b'\0'), b4.rstrip(b'=') )
def starts(b4): return (b4.startswith(b'ab'), b4.endswith((b'c', b'd')))
def justb(b4): return b4.rjust(6, b'\0') + b4.ljust(5, b'\1') + b4.zfill(6)
def trans(b4): return b4.translate(bytes(reversed(range(256))))
def listb(b4): return [x + 1 for x in b4]
def bytesb(b4): return bytes(reversed(b4))
def joinb(b4): return b','.join([b4[:2], b4[2:]])
def mview(b8):
    m = memoryview(b8)
    return bytes(m[2:4]), m[0], len(m), m[3:].tobytes()
def barr(b4):
    x = bytearray()
    x += b4
    x.append(7)
    x.extend(b4[:1])
    del x[0]
    x[0] = 3
    return bytes(x)
def bio(b8):
    f = io.BytesIO(b8)
    a = f.read(2)
    f.seek(1, 1)
    return a, f.tell(), f.read(3), f.read(), f.read(1)
def biow(b4):
    f = io.BytesIO()
    f.write(b4)
    f.write(b'xy')
    return f.getvalue()
def xor(b4): return bytes(x ^ 0x36 for x in b4)
def allz(b4): return (any(b4), all(b4), not any(b4[:2]))
def hcmp(b4): return hmac.compare_digest(b4, b'abcd')
def bset(b4): return sorted(b4)
def bmax(b4): return max(b4)
def bdec(b4): return b4.decode('utf-8')
def bdeca(b4): return b4.decode('ascii')
def bdecl(b4): return b4.decode('latin-1')
def bdeci(b4): return b4.decode('ascii', 'ignore')
def bdecr(b4): return b4.decode('utf-8', 'replace')
def pop8(b4): return bin(b4[0]).count('1')


# base64
def b64e(b4): return base64.b64encode(b4)
def b64u(b8): return base64.urlsafe_b64encode(b8).rstrip(b'=').decode()
def b64d(a4): return base64.b64decode(a4)
def b64dv(a4): return base64.b64decode(a4, validate=True)
def b64du(a3): return base64.urlsafe_b64decode(a3 + '=')
def b64alt(b4): return base64.b64encode(b4, b'-_')
def b64round(b4): return base64.b64decode(base64.b64encode(b4)) == b4
def b64tr(b4):
    return base64.b64encode(b4).translate(bytes.maketrans(b'+/', b'-_'))
def b64rep(b4):
    s = base64.b64encode(b4).decode().replace('+', '-').replace('/', '_')
    return base64.urlsafe_b64decode(s) == b4
def b32(b4): return base64.b16encode(b4)


# text
def tlow(t3): return t3.lower()
def tup(t3): return t3.upper()
def tfold(t2): return t2.casefold()
def tcap(a3): return (a3.capitalize(), a3.title(), a3.swapcase())
def tstrip(t3): return (t3.strip(), t3.lstrip(), t3.rstrip('a'))
def tsplit(a4): return (a4.split('_'), a4.split(), a4.rsplit('.', 1))
def tlines(a4): return a4.splitlines()
def tpart(a4): return (a4.partition('_'), a4.rpartition('_'))
def tfind(a4): return (a4.find('_'), a4.rfind('b'), 'ab' in a4, a4.count('a'))
def tindex(a3): return a3.index('x')
def trepl(a4): return a4.replace('_', '--').replace('-', '', 1)
def tis(t2): return (t2.isupper(), t2.islower(), t2.isalpha(), t2.isdigit())
def tis2(t2): return (t2.isalnum(), t2.isspace(), t2.isascii())
def tis3(t2): return (t2.isidentifier(), t2.isnumeric(), t2.isdecimal())
def tcmp(t3): return (t3 < 'abc', t3 == 'abc', t3 >= 'zz')
def tord(t3): return [ord(c) for c in t3]
def tchr(u): return chr(u) + 'x'
def tenc(t2): return t2.encode()
def tenca(t2): return t2.encode('ascii')
def tencl(t2): return t2.encode('latin-1', 'ignore')
def trev(t3): return t3[::-1] + t3[1:] * 2
def tjoin(t3): return '-'.join(t3)
def tenum(a3): return [(i, c.upper()) for i, c in enumerate(a3)]
def tfmt(t3): return 'x{}y{!s}'.format(t3, t3)
def tf(t3): return f'<{t3}>'
def tpct(t3): return '%s|%s' % (t3, 'k')
def ifmt(i): return '{}'.format(i) + str(i) + f'{i}' + '%d' % i
def bpct(b4, u): return b'%s|%b%c-%02x' % (b4, b4[:1], u, u)
def bpctd(i): return b'%d' % i
def bpctx(t2): return b'%s' % t2
def tdict(a2): return {'ab': 1, 'cd': 2}.get(a2, 0)
def tin(a2): return a2 in ('ab', 'cd') or a2 in {'ef', 'gh'}
def tremove(a4): return (a4.removeprefix('ab'), a4.removesuffix('d'))
def ttrans(a3): return a3.translate({97: 'A', 98: None, 99: 'xyz'})
def tmk(a3): return a3.translate(str.maketrans('abc', 'xyz', 'd'))
def tzf(a3): return a3.zfill(5)
def tjust(a3): return a3.ljust(5, '=') + a3.rjust(4)
def rsub(a4): return re.sub(r'_+', '_', a4)
def rsplit(a4): return re.split(r'_+', a4)
def rmatch(a4): return bool(re.match(r'^[a-z]+[0-9]?$', a4))
def rfull(a3): return bool(re.fullmatch(r'[A-Za-z]\w*', a3))
def rgroup(a4):
    m = re.match(r'([a-z]*)(\d*)', a4)
    return m.group(1), m.groups(), m.end()
def rfind(a4): return re.findall(r'[A-Z][a-z]*', a4)
def rsubf(a4): return re.sub(r'_([a-z])', lambda m: m.group(1).upper(), a4)
def rupper(a4): return re.sub(r'(?<!^)(?=[A-Z])', '_', a4)
def url(a4): return urlparse('https://' + a4).hostname
def url2(a4): return urlsplit('https://ex.com' + a4).netloc
def url3(a3):
    u = urlsplit(a3 + '://h:8')
    return (u.scheme, u.port)
def url4(a3): return urlparse('http://h:' + a3).port
def quo(a2): return quote(a2)


# control flow and containers
def walrus(b4):
    if (n := b4[0]) > 100:
        return n
    return -n
def mtch(a2):
    match a2:
        case 'ab' | 'cd':
            return 1
        case str(x) if x.startswith('e'):
            return x
        case _:
            return None
def mtchi(i):
    match i:
        case 0:
            return 'zero'
        case 1 | 2 | 3:
            return 'few'
        case int() if i < 0:
            return 'neg'
    return 'many'
def comp(b4): return [x for x in b4 if x > 100]
def gen(b4): return next((i for i, x in enumerate(b4) if x == 7), None)
def loop(b4):
    n = 0
    for x in b4:
        if x == 0:
            break
        n += 1
    else:
        return 'all'
    return n
def wh(u):
    out = []
    while u:
        out.append(u & 15)
        u >>= 4
    return out
def dcomp(b4): return {i: x for i, x in enumerate(b4)}
def chain(b4): return list(itertools.chain(b4[:1], b4[2:]))
def zipl(b4): return list(zip(b4, 'abc'))
def red(b4): return functools.reduce(lambda a, c: a * 256 + c, b4, 0)
def part(b4): return functools.partial(int.from_bytes, byteorder='big')(b4)
def oget(b4): return operator.itemgetter(1, 2)(b4)
def oeq(b4): return operator.eq(b4, b'abcd')
def enm(i): return E2(i).name
def enmt(i):
    try:
        return E2(i)
    except ValueError:
        return None
def dcnt(a3): return sorted(collections.Counter(a3).items())
def dq(b4):
    d = collections.deque(b4)
    d.rotate(1)
    return list(d)
def ddict(a2):
    d = collections.defaultdict(list)
    d[a2].append(1)
    d['ab'].append(2)
    return sorted(d.items())
def tupeq(b4, i): return (b4[:1], i) == (b'a', 5)
def inlist(i): return i in [1, 2, -7], i not in (3, 4)
def rng(u): return u in range(10, 20), u in range(0, 100, 7)
def chaincmp(u): return 10 <= u < 20
def boolop(u, p): return u and p, u or p, not p
def ifexp(p): return 'a' if p else 'b'
def booli(p): return p + 1, int(p), p & True, p == 1
def isinst(b4, i, p):
    return (isinstance(b4, (bytes, str)), type(i) is int, isinstance(p, int))
def unp(b4):
    a, *m, z = b4
    return a, m, z
def tryexc(b4):
    try:
        return b4.decode('ascii')
    except UnicodeDecodeError as e:
        return e.start
    finally:
        pass
def sortk(b4): return sorted(b4, key=lambda x: -x)
def revd(b4): return list(reversed(b4))
def sets(a3): return len(set(a3)), set(a3) & set('abc') == set()
def fsub(a3): return set(a3) <= set('abcdefgh')
def dsd(i):
    d = {1: 'a', 2: 'b'}
    return d.get(i), i in d, d.setdefault(i, 'z')
def ddel(i):
    d = {1: 'a', 2: 'b'}
    d.pop(i, None)
    return sorted(d)
def dkey(i):
    try:
        return {1: 'a'}[i]
    except KeyError as e:
        return 'no', e.args == (i,), str(e)


# documents
def jload(a4): return json.loads('[' + a4 + ']')
def jdumpi(i, b2):
    try:
        return json.loads(json.dumps([(i,), None, True, {'k': b2}]))
    except TypeError as e:
        return 'no', str(e)
def jround(t2): return json.loads(json.dumps(t2)) == t2
def cload(b4): return cbor2.loads(b4)
def cload2(b2): return cbor2.loads(b'\x82' + b2 + b'\0')
def cloadm(b2): return cbor2.loads(b'\xa1' + b2)
def cdump(i, b4): return cbor2.dumps({1: i, -2: b4})
def cdumpt(t2): return cbor2.dumps([t2, None])
def cround(i): return cbor2.loads(cbor2.dumps(i))


# hashing
def sha(b4): return hashlib.sha256(b4).digest() == hashlib.sha256(b'abcd').digest()
def shan(b4): return len(hashlib.new('sha256', b4).hexdigest())
