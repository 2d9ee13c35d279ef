"""Stand-ins for the cryptographic library in symbolic mode.

Public keys are their coordinates; a point is valid or not (a Boolean that is a
function of the coordinates); signature validity is an uninterpreted predicate
V(key, hash, data, signature) with the ideal property that one signature is
valid for one (key, hash, data) only.  Certificates and DER extensions are
documents whose structure the harness chose.
"""
from cryptography import x509
from cryptography.exceptions import InvalidSignature, UnsupportedAlgorithm
from cryptography.hazmat.primitives import hashes as real_hashes
from cryptography.hazmat.primitives.asymmetric import (
    dsa, ec, ed448, ed25519, rsa)
from cryptography.hazmat.primitives.serialization import (Encoding,
                                                          PublicFormat)
from cryptography.x509.oid import ObjectIdentifier
from pyasn1.codec.der import decoder as der_decoder
from pyasn1.error import PyAsn1Error
from pyasn1.type import univ

from . import core, keys
from . import values as V
from .core import Unmodelled, z3
from .rt import MODELS, _NATURAL, concretise, model, symbolic
from .values import Opaque, Proxy, is_sym, mkbool, mkbytes


# ------------------------------------------------------------- key identity
def key_eq(a, b):
    """Expression: two key descriptions denote the same key."""
    if a[0] != b[0]:
        return False
    return V.And(*[V.sx_eq(x, y) for x, y in zip(a[1:], b[1:])])


def point_valid(name, x, y):
    """Is (x, y) on the curve, as bool or SymBool (no fork)?"""
    if not symbolic((x, y)):
        return keys.on_curve(name, x, y)
    eng = core.ENG
    for (c, x2, y2, ok2) in eng.points:
        if c == name and V.And(V.sx_eq(x, x2), V.sx_eq(y, y2)) is True:
            return mkbool(ok2)
    ok = z3.Bool(eng.fresh_name('point_ok'))
    if name in keys.COORD:
        lim = 1 << (8 * keys.COORD[name])
        eng.assume(V.ebool(V.Or(mkbool(z3.Not(ok)), V.And(
            x >= 0, y >= 0, x < lim, y < lim))))
    for (c, x2, y2, ok2) in eng.points:
        if c == name:
            same = V.And(V.sx_eq(x, x2), V.sx_eq(y, y2))
            if same is not False:
                eng.assume(V.ebool(V.Or(V.Not(same), mkbool(ok == ok2))))
    eng.points.append((name, x, y, ok))
    return mkbool(ok)


class StubNumbers:
    def __init__(self, x, y, curve):
        if not isinstance(x, int) or not isinstance(y, int):
            raise TypeError('x and y must be integers.')
        if not isinstance(curve, ec.EllipticCurve):
            raise TypeError('curve must provide the EllipticCurve interface.')
        self.x, self.y, self.curve = x, y, curve

    __class__ = property(lambda self: ec.EllipticCurvePublicNumbers)

    def public_key(self, backend=None):
        x, y = self.x, self.y
        ok = point_valid(self.curve.name, x, y)
        if not ok:
            raise ValueError('Invalid EC key.')
        return StubEC(self.curve, x, y)

    def __eq__(self, o):
        if not isinstance(o, StubNumbers):
            return NotImplemented
        return V.And(self.curve.name == o.curve.name, V.sx_eq(self.x, o.x),
                     V.sx_eq(self.y, o.y))

    __hash__ = None


def _header(kind):
    pk = keys.private(kind, 0).public_key()
    d = pk.public_bytes(Encoding.DER, PublicFormat.SubjectPublicKeyInfo)
    n = keys.COORD[kind] * (2 if kind in keys.CURVES else 1)
    return d[:len(d) - n]


class StubEC(ec.EllipticCurvePublicKey):
    def __init__(self, curve, x, y):
        self._curve, self._x, self._y = curve, x, y

    @property
    def desc(self):
        return (self._curve.name, self._x, self._y)

    @property
    def curve(self):
        return self._curve

    @property
    def key_size(self):
        return self._curve.key_size

    def signer(self, *a):
        raise Unmodelled('signer')

    verifier = signer

    def public_numbers(self):
        return StubNumbers(self._x, self._y, self._curve)

    def public_bytes(self, encoding, format):
        name = self._curve.name
        if name not in keys.COORD:
            raise Unmodelled('public bytes of ' + name)
        n = keys.COORD[name]
        xb = V.SymInt.to_bytes(self._x, n, 'big') if is_sym(self._x) \
            else self._x.to_bytes(n, 'big')
        yb = V.SymInt.to_bytes(self._y, n, 'big') if is_sym(self._y) \
            else self._y.to_bytes(n, 'big')
        if encoding is Encoding.DER and \
                format is PublicFormat.SubjectPublicKeyInfo:
            return _header(name) + xb + yb
        if encoding is Encoding.X962 and \
                format is PublicFormat.UncompressedPoint:
            return b'\x04' + xb + yb
        if encoding is Encoding.X962 and \
                format is PublicFormat.CompressedPoint:
            odd = self._y % 2 == 1
            return (b'\x03' if odd else b'\x02') + xb
        raise Unmodelled('public key encoding %s/%s' % (encoding, format))

    def verify(self, signature, data, signature_algorithm):
        alg = signature_algorithm.algorithm
        name = getattr(alg, 'name', None)
        if name not in keys.HASHES:
            raise Unmodelled('ECDSA with %r' % (alg,))
        sig_verify(self.desc, name, data, signature)


class _Ed:
    KIND = None

    def __init__(self, data):
        self._data = data

    @property
    def desc(self):
        return (self.KIND, self._data)

    def public_bytes(self, encoding, format):
        if encoding is Encoding.DER and \
                format is PublicFormat.SubjectPublicKeyInfo:
            return _header(self.KIND) + self._data
        if encoding is Encoding.Raw and format is PublicFormat.Raw:
            return self._data
        raise Unmodelled('public key encoding %s/%s' % (encoding, format))

    def verify(self, signature, data):
        sig_verify(self.desc, 'eddsa', data, signature)


class StubEd25519(_Ed, ed25519.Ed25519PublicKey):
    KIND = 'ed25519'


class StubEd448(_Ed, ed448.Ed448PublicKey):
    KIND = 'ed448'


class StubRSA(rsa.RSAPublicKey):
    desc = ('rsa',)

    def _no(self, *a, **k):
        raise Unmodelled('RSA')

    encrypt = verifier = public_numbers = public_bytes = verify = _no
    recover_data_from_signature = _no
    key_size = 1024


class StubDSA(dsa.DSAPublicKey):
    desc = ('dsa',)

    def _no(self, *a, **k):
        raise Unmodelled('DSA')

    parameters = verifier = public_numbers = public_bytes = verify = _no
    key_size = 1024


def _bytes_like(x, what):
    if x.__class__ not in (bytes, bytearray, memoryview):
        raise TypeError('%s must be bytes' % what)


MODELS[ec.EllipticCurvePublicNumbers] = StubNumbers


@model(ed25519.Ed25519PublicKey.from_public_bytes)
def _ed25519(data):
    if data.__class__ is str:
        raise TypeError('a bytes-like object is required')
    if isinstance(data, Opaque):
        raise Unmodelled('Ed25519 key from an opaque document')
    if len(data) != 32:
        raise ValueError('An Ed25519 public key is 32 bytes long')
    return StubEd25519(data)


@model(ed448.Ed448PublicKey.from_public_bytes)
def _ed448(data):
    if data.__class__ is str:
        raise TypeError('a bytes-like object is required')
    if isinstance(data, Opaque):
        raise Unmodelled('Ed448 key from an opaque document')
    if len(data) != 57:
        raise ValueError('An Ed448 public key is 57 bytes long')
    return StubEd448(data)


@model(ec.EllipticCurvePublicKey.from_encoded_point)
def _from_point(curve, data):
    if not isinstance(curve, ec.EllipticCurve):
        raise TypeError('curve must be an EllipticCurve instance')
    _bytes_like(data, 'data')
    if len(data) == 0:
        raise ValueError('data must not be an empty byte string')
    if curve.name not in keys.COORD:
        raise Unmodelled('curve ' + curve.name)
    n = keys.COORD[curve.name]
    tag = data[0]
    if tag == 4:
        if len(data) != 1 + 2 * n:
            raise ValueError('Invalid EC key')
        frm = MODELS[int.from_bytes]
        return StubNumbers(frm(data[1:1 + n], 'big'), frm(data[1 + n:], 'big'),
                           curve).public_key()
    if tag == 2 or tag == 3:
        raise Unmodelled('compressed point')
    raise ValueError('Unsupported elliptic curve point type')


# ------------------------------------------------------------- signatures
def _data_eq(a, b):
    if isinstance(a, tuple) or isinstance(b, tuple):
        return a == b
    if isinstance(a, Opaque) or isinstance(b, Opaque):
        return a is b or (isinstance(a, Opaque) and isinstance(b, Opaque) and
                          a.ident == b.ident)
    return mkbool(V.items_eq(V.bitems(a), V.bitems(b)))


def sig_valid(key, hash_name, data, sig):
    """V(key, hash, data, sig) as bool or SymBool (no fork)."""
    eng = core.ENG
    for (k, h, d, s, ok) in eng.sigs:
        if h == hash_name and V.And(key_eq(k, key), _data_eq(d, data),
                                    _data_eq(s, sig)) is True:
            return mkbool(ok)
    n = keys.SIGLEN[key[0]]
    if is_sym(sig) and not isinstance(sig, Opaque) and (
            len(sig) != n if key[0] in ('ed25519', 'ed448') else
            not 8 <= len(sig) <= n + 1):
        return False
    if not is_sym(sig):
        # a signature that is not the adversary's/authenticator's to choose
        ok = False
        eng.stats.note('fixed signature bytes taken as invalid')
        return False
    ok = z3.Bool(eng.fresh_name('sig_ok'))
    for (k, h, d, s, ok2) in eng.sigs:
        same_sig = _data_eq(s, sig)
        if same_sig is False:
            continue
        same = V.And(h == hash_name, key_eq(k, key), _data_eq(d, data))
        # congruence
        eng.assume(V.ebool(V.Or(V.Not(same_sig), V.Not(same),
                                mkbool(ok == ok2))))
        # one signature, one statement
        eng.assume(V.ebool(V.Or(V.Not(same_sig), same,
                                mkbool(z3.Not(z3.And(ok, ok2))))))
    eng.sigs.append((key, hash_name, data, sig, ok))
    return mkbool(ok)


def sig_verify(key, hash_name, data, sig):
    _bytes_like(sig, 'signature')
    _bytes_like(data, 'data')
    if not sig_valid(key, hash_name, data, sig):
        raise InvalidSignature


# ------------------------------------------------------------ certificates
# what may be wrong with a certificate: nothing; not a certificate; an EC key
# with explicit parameters; one on a curve unknown to the library; an invalid
# extension; an extension given twice; a general name of an unsupported type
CERT_KINDS = ('ok', 'bad', 'explicit', 'curve', 'badext', 'dupext', 'x400')


class CertDoc:
    """kind: callable -> 'ok' | 'bad'; pk: callable -> ('ec', kind, x, y) |
    ('ed25519', x) | ('ed448', x) | ('rsa',) | ('dsa',);
    exts: callable -> [(oid, der)]"""
    UNIQUE = True

    def __init__(self, kind, pk, exts):
        self.kind, self.pk, self.exts = kind, pk, exts
        self.cert = None

    def decode(self, o, *a):
        raise Unmodelled('decoding a certificate as text')

    encode = decode


class StubCert(x509.Certificate):
    def __init__(self, opaque):
        self._opaque = opaque
        self._pk = None

    def public_key(self):
        k = self._opaque.doc.kind()
        if k == 'explicit':
            raise NotImplementedError('unnamed curve')
        if k == 'curve':
            raise UnsupportedAlgorithm('not a supported elliptic curve')
        if self._pk is None:
            d = self._opaque.doc.pk()
            if d[0] in keys.CURVES:
                frm = MODELS[int.from_bytes]
                self._pk = StubNumbers(
                    frm(d[1], 'big'), frm(d[2], 'big'),
                    keys.CURVES[d[0]]()).public_key()
            elif d[0] == 'ed25519':
                self._pk = StubEd25519(d[1])
            elif d[0] == 'ed448':
                self._pk = StubEd448(d[1])
            else:
                self._pk = StubRSA() if d[0] == 'rsa' else StubDSA()
        return self._pk

    @property
    def extensions(self):
        k = self._opaque.doc.kind()
        if k in ('explicit', 'curve'):
            raise Unmodelled('extensions of such a certificate')
        if k == 'badext':
            raise ValueError('The extension is invalid')
        if k == 'dupext':
            raise x509.DuplicateExtension(
                'Duplicate extension found', ObjectIdentifier('1.2.3.4'))
        if k == 'x400':
            raise x509.UnsupportedGeneralNameType(
                'x400Address is not a supported type', 3)
        return x509.Extensions([
            x509.Extension(ObjectIdentifier(oid), False,
                           x509.UnrecognizedExtension(
                               ObjectIdentifier(oid), der))
            for oid, der in self._opaque.doc.exts()])

    def public_bytes(self, encoding):
        if encoding is Encoding.DER:
            return self._opaque
        raise Unmodelled('certificate encoding')

    def __eq__(self, o):
        return isinstance(o, StubCert) and o._opaque.ident == \
            self._opaque.ident

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash(self._opaque.ident)

    def _no(self, *a, **k):
        raise Unmodelled('certificate attribute')

    fingerprint = _no
    serial_number = version = not_valid_before = not_valid_after = \
        issuer = subject = signature_hash_algorithm = \
        signature_algorithm_oid = signature = tbs_certificate_bytes = \
        property(_no)


@model(x509.load_der_x509_certificate)
def _load_cert(data, backend=None):
    if isinstance(data, Opaque) and isinstance(data.doc, CertDoc):
        if data.doc.kind() == 'bad':
            raise ValueError('Unable to load certificate')
        if data.doc.cert is None:
            data.doc.cert = StubCert(data)
        return data.doc.cert
    if data.__class__ is not bytes:
        raise TypeError('a bytes-like object is required')
    if isinstance(data, Opaque):
        raise Unmodelled('another document as certificate')
    if is_sym(data):
        if len(data) > 100:
            raise Unmodelled('symbolic bytes as certificate')
        raise ValueError('Unable to load certificate')
    return x509.load_der_x509_certificate(data, backend)


# ------------------------------------------------------------------- ASN.1
class DERDoc:
    """A KeyDescription document.

    kind: callable -> 'ok' | 'bad' | 'deep'; fields: callable -> six field values; se,
    tee: callables -> {tag: (kind, value)}"""

    def __init__(self, kind, fields, se, tee):
        self.kind, self.fields, self.se, self.tee = kind, fields, se, tee

    def decode(self, o, *a):
        raise Unmodelled('decoding DER as text')

    encode = decode


class StubVal:
    """A decoded primitive ASN.1 value (or an absent optional one)."""

    def __init__(self, kind, v=None, present=True):
        self._k, self._v, self._p = kind, v, present

    def hasValue(self):
        return self._p

    @property
    def isValue(self):
        return self._p

    def _need(self):
        if not self._p:
            raise PyAsn1Error('Attempted operation on ASN.1 schema object')
        return self._v

    def asOctets(self):
        return self._need()

    def __bytes__(self):
        return self._need()

    def asNumbers(self):
        return tuple(self._need())

    def __sx_int__(self):
        return self._need()

    def __int__(self):
        return int(self._need())

    __index__ = __int__

    def prettyPrint(self, *a):
        raise Unmodelled('prettyPrint')

    def __len__(self):
        return len(self._need())

    def __bool__(self):
        v = self._need()
        return bool(v)

    def __eq__(self, o):
        if isinstance(o, StubVal):
            o = o._need()
        return V.sx_eq(self._need(), o)

    def __ne__(self, o):
        return V.Not(self == o)

    def __lt__(self, o):
        return self._need() < o

    def __le__(self, o):
        return self._need() <= o

    def __gt__(self, o):
        return self._need() > o

    def __ge__(self, o):
        return self._need() >= o

    def __hash__(self):
        return hash(self._need())


class StubSetOf(StubVal):
    def count(self, v):
        n = 0
        for x in self._need():
            if V.sx_eq(x, v):
                n += 1
        return n

    def __contains__(self, v):
        return bool(V.Or(*[V.sx_eq(x, v) for x in self._need()]))

    def __iter__(self):
        return iter([StubVal('int', x) for x in self._need()])

    def __getitem__(self, i):
        return StubVal('int', self._need()[i])

    def index(self, v):
        for i, x in enumerate(self._need()):
            if V.sx_eq(x, v):
                return i
        raise ValueError


class StubSeq(StubVal):
    def __getitem__(self, name):
        if type(name) is int:
            return list(self._v.values())[name]
        if name not in self._v:
            raise KeyError(name)
        return self._v[name]

    def getComponentByName(self, name, *a, **k):
        return self[name]

    def keys(self):
        return self._v.keys()

    def values(self):
        return self._v.values()

    def items(self):
        return self._v.items()

    def __iter__(self):
        return iter(self._v)

    def __contains__(self, k):
        return k in self._v

    def __len__(self):
        return len(self._v)


_BASE = ((univ.Boolean, 'bool'), (univ.Enumerated, 'enum'),
         (univ.Integer, 'int'), (univ.Null, 'null'),
         (univ.OctetString, 'octets'), (univ.SetOf, 'set'), (univ.SequenceOf, 'seqof'),
         (univ.Sequence, 'seq'))
_SPECKIND = {'root': 'seq'}


def _kind(t):
    for cls, k in _BASE:
        if isinstance(t, cls):
            return k
    raise Unmodelled('ASN.1 type %r' % type(t))


def _make(t, kind, v):
    want = _SPECKIND.get(kind, kind)
    if _kind(t) != want:
        raise PyAsn1Error('tag mismatch: %s for %s' % (kind, _kind(t)))
    if want == 'set':
        return StubSetOf('set', list(v))
    if want == 'seq':
        return _fixed(t, [('octets', v[0]), ('bool', v[1]), ('enum', v[2]),
                          ('octets', v[3])])
    return StubVal(kind, v)


def _absent(t):
    k = _kind(t)
    if k == 'set':
        return StubSetOf('set', None, False)
    if k == 'seq':
        s = StubSeq('seq', {n.name: _absent(n.asn1Object)
                            for n in t.componentType.namedTypes}, False)
        return s
    return StubVal(k, None, False)


def _fixed(t, vals):
    """A SEQUENCE of untagged required fields."""
    nts = t.componentType.namedTypes
    out, i = {}, 0
    for n in nts:
        if n.asn1Object.tagSet[0].tagClass == 0x80 or (
                len(n.asn1Object.tagSet) > 1):
            raise Unmodelled('tagged field in a fixed SEQUENCE')
        if i < len(vals) and _kind(n.asn1Object) == vals[i][0]:
            out[n.name] = _make(n.asn1Object, *vals[i])
            i += 1
        elif n.isOptional or n.isDefaulted:
            out[n.name] = _absent(n.asn1Object)
        else:
            raise PyAsn1Error('missing field %s' % n.name)
    if i != len(vals):
        raise PyAsn1Error('excessive components')
    return StubSeq('seq', out)


def _tagno(t):
    """Context tag number of an explicitly tagged type, or None."""
    for tg in t.tagSet:
        if tg.tagClass == 0x80:
            return tg.tagId
    return None


def _authlist(t, entries):
    nts = t.componentType.namedTypes
    out = {n.name: _absent(n.asn1Object) for n in nts}
    idx = 0
    for tag in sorted(entries):
        pos = None
        for j in range(idx, len(nts)):
            if _tagno(nts[j].asn1Object) == tag:
                pos = j
                break
            if not (nts[j].isOptional or nts[j].isDefaulted):
                break
        if pos is None:
            raise PyAsn1Error('tag %d not in schema here' % tag)
        kind, v = entries[tag]
        out[nts[pos].name] = _make(nts[pos].asn1Object, kind, v)
        idx = pos + 1
    for n in nts[idx:]:
        if not (n.isOptional or n.isDefaulted):
            raise PyAsn1Error('required field missing')
    return StubSeq('seq', out)


def _decode(substrate, asn1Spec=None, **opts):
    if not symbolic(substrate):
        return der_decoder.decode(substrate, asn1Spec, **opts)
    if not isinstance(substrate, Opaque) or \
            not isinstance(substrate.doc, DERDoc):
        raise Unmodelled('DER decoding of symbolic bytes')
    doc = substrate.doc
    if doc.kind() == 'deep':
        raise RecursionError('maximum recursion depth exceeded')
    if doc.kind() != 'ok':
        raise PyAsn1Error('malformed')
    if asn1Spec is None:
        raise Unmodelled('schemaless DER decoding')
    nts = asn1Spec.componentType.namedTypes
    kinds = ('int', 'enum', 'int', 'enum', 'octets', 'octets', 'se', 'tee')
    if len(nts) != 8:
        raise PyAsn1Error('field count')
    vals = list(doc.fields())
    out = {}
    for n, k, i in zip(nts, kinds, range(8)):
        t = n.asn1Object
        if k in ('se', 'tee'):
            if _kind(t) != 'seq':
                raise PyAsn1Error('tag mismatch')
            out[n.name] = _authlist(t, doc.se() if k == 'se' else doc.tee())
        else:
            out[n.name] = _make(t, k, vals[i])
    return StubSeq('seq', out), b''


MODELS[der_decoder.decode] = _decode
try:
    from pyasn1.codec.ber import decoder as ber_decoder
    MODELS[ber_decoder.decode] = _decode
except ImportError:  # pragma: no cover
    pass
