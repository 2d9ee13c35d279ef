"""Deterministic real keys, signatures, certificates and DER used to turn
solver models into inputs for the real code (concrete mode only)."""
import base64
import datetime
import functools
import hashlib

from cryptography import x509
from cryptography.hazmat.backends import default_backend
from cryptography.hazmat.primitives import hashes
from cryptography.hazmat.primitives.asymmetric import (
    dsa, ec, ed448, ed25519, rsa, x25519)
from cryptography.hazmat.primitives.serialization import (
    Encoding, NoEncryption, PrivateFormat, PublicFormat, load_pem_private_key)
from cryptography.x509.oid import NameOID, ObjectIdentifier

CURVES = {'secp256r1': ec.SECP256R1, 'secp384r1': ec.SECP384R1,
          'secp521r1': ec.SECP521R1, 'secp256k1': ec.SECP256K1,
          'secp224r1': ec.SECP224R1, 'secp192r1': ec.SECP192R1,
          'brainpoolP256r1': ec.BrainpoolP256R1,
          'brainpoolP384r1': ec.BrainpoolP384R1}
COORD = {'secp256r1': 32, 'secp384r1': 48, 'secp521r1': 66,
         'secp256k1': 32, 'secp224r1': 28, 'secp192r1': 24,
         'brainpoolP256r1': 32, 'brainpoolP384r1': 48,
         'ed25519': 32, 'ed448': 57}
SIGLEN = {'secp256r1': 71, 'secp384r1': 103, 'secp521r1': 138,
          'secp256k1': 71, 'secp224r1': 63, 'secp192r1': 55,
          'brainpoolP256r1': 71, 'brainpoolP384r1': 103,
          'ed25519': 64, 'ed448': 114}
HASHES = {'sha1': hashes.SHA1, 'sha224': hashes.SHA224,
          'sha256': hashes.SHA256, 'sha384': hashes.SHA384,
          'sha512': hashes.SHA512}


def _scalar(kind, i):
    h = hashlib.sha512(('%s/%d' % (kind, i)).encode()).digest()
    return int.from_bytes(h[:min(31, COORD[kind] - 1)], 'big') + 2


@functools.lru_cache(None)
def private(kind, i):
    if kind in CURVES:
        return ec.derive_private_key(_scalar(kind, i), CURVES[kind](),
                                     default_backend())
    seed = hashlib.shake_256(('%s/%d' % (kind, i)).encode()).digest(57)
    if kind == 'ed25519':
        return ed25519.Ed25519PrivateKey.from_private_bytes(seed[:32])
    return ed448.Ed448PrivateKey.from_private_bytes(seed)


@functools.lru_cache(None)
def raw_public(kind, i):
    """(x, y) bytes for EC keys, (x,) for Edwards keys."""
    p = private(kind, i).public_key()
    if kind in CURVES:
        n = p.public_numbers()
        c = COORD[kind]
        return n.x.to_bytes(c, 'big'), n.y.to_bytes(c, 'big')
    return (p.public_bytes(Encoding.Raw, PublicFormat.Raw),)


@functools.lru_cache(None)
def pool(kind):
    """Indices of keys worth trying: ordinary ones, then ones with unusual
    leading/trailing coordinate bytes."""
    out = [0, 1, 2, 3]
    wanted = []
    if kind in CURVES:
        for c in (0, 1):
            wanted.append(lambda r, c=c: r[c][0] == 0)
            wanted.append(lambda r, c=c: r[c][0] != 0)
            wanted.append(lambda r, c=c: r[c][-1] == 0)
            wanted.append(lambda r, c=c: r[c][0] >= 0x80)
            wanted.append(lambda r, c=c: r[c][0] < 0x80)
    else:
        wanted.append(lambda r: r[0][0] == 0)
        wanted.append(lambda r: r[0][-1] == 0)
    limit = 800 if kind in ('secp256r1', 'ed25519') else 120
    i = 4
    while wanted and i < limit:
        r = raw_public(kind, i)
        hit = [w for w in wanted if w(r)]
        if hit:
            out.append(i)
            wanted = [w for w in wanted if w not in hit]
        i += 1
    return out


def find(kind, coords):
    for i in pool(kind):
        if raw_public(kind, i) == tuple(coords):
            return i
    return None


def sign(kind, i, hash_name, data, length=None):
    key = private(kind, i)
    if kind not in CURVES:
        return key.sign(data)
    for _ in range(400):
        s = key.sign(data, ec.ECDSA(HASHES[hash_name]()))
        if length is None or len(s) == length:
            return s
    return None


def on_curve(kind, x, y):
    try:
        ec.EllipticCurvePublicNumbers(x, y, CURVES[kind]()).public_key(
            default_backend())
        return True
    except ValueError:
        return False


def public_key(kind, coords):
    """Real public key object for raw coordinates."""
    if kind in CURVES:
        return ec.EllipticCurvePublicNumbers(
            int.from_bytes(coords[0], 'big'), int.from_bytes(coords[1], 'big'),
            CURVES[kind]()).public_key(default_backend())
    if kind == 'ed25519':
        return ed25519.Ed25519PublicKey.from_public_bytes(coords[0])
    if kind == 'ed448':
        return ed448.Ed448PublicKey.from_public_bytes(coords[0])
    raise KeyError(kind)


@functools.lru_cache(None)
def _rsa():
    # only its type matters
    return rsa.generate_private_key(65537, 1024, default_backend())


@functools.lru_cache(None)
def _dsa():
    return dsa.generate_private_key(1024, default_backend())


@functools.lru_cache(None)
def _ca():
    return private('secp256r1', 9001)


def certificate(kind, coords, extensions=(), serial=1):
    """DER certificate for the public key; extensions = [(oid, der)]."""
    if kind in ('rsa', 'dsa'):
        pk = (_rsa if kind == 'rsa' else _dsa)().public_key()
    else:
        try:
            pk = public_key(kind, coords)
        except ValueError:
            # not a point of the curve: put in place of one
            good = raw_public(kind, 8999)
            der = certificate(kind, good, extensions, serial)
            was, now = b''.join(good), b''.join(coords)
            if der.count(was) != 1 or len(was) != len(now):
                raise
            return der.replace(was, now)
    name = x509.Name([x509.NameAttribute(NameOID.COMMON_NAME, 'verif')])
    b = x509.CertificateBuilder().subject_name(name).issuer_name(name)
    b = b.public_key(pk).serial_number(serial)
    b = b.not_valid_before(datetime.datetime(2020, 1, 1))
    b = b.not_valid_after(datetime.datetime(2040, 1, 1))
    for oid, der in extensions:
        b = b.add_extension(x509.UnrecognizedExtension(
            ObjectIdentifier(oid), der), critical=False)
    c = b.sign(_ca(), hashes.SHA256(), default_backend())
    return c.public_bytes(Encoding.DER).replace(
        bytes.fromhex('06032a0305'), bytes.fromhex('06032a0304'))


# ------------------------------------------------------------------ DER
def der_len(n):
    if n < 128:
        return bytes([n])
    b = n.to_bytes((n.bit_length() + 7) // 8, 'big')
    return bytes([0x80 | len(b)]) + b


def der_tlv(tag, body):
    return bytes(tag if isinstance(tag, (bytes, list)) else [tag]) + \
        der_len(len(body)) + body


def der_int(v, tag=2):
    n = max(1, (v.bit_length() + 8) // 8)
    return der_tlv(tag, v.to_bytes(n, 'big', signed=True))


def der_ctx(n, body):
    """[n] EXPLICIT body."""
    if n < 31:
        t = [0xA0 | n]
    else:
        digits = []
        m = n
        while True:
            digits.append(m & 127)
            m >>= 7
            if not m:
                break
        digits.reverse()
        t = [0xBF] + [d | 128 for d in digits[:-1]] + [digits[-1]]
    return der_tlv(t, body)


def der_value(kind, v):
    if kind == 'int':
        return der_int(v)
    if kind == 'enum':
        return der_int(v, 10)
    if kind == 'octets':
        return der_tlv(4, v)
    if kind == 'null':
        return der_tlv(5, b'')
    if kind == 'bool':
        return der_tlv(1, b'\xff' if v else b'\x00')
    if kind == 'set':
        return der_tlv(0x31, b''.join(sorted(der_int(x) for x in v)))
    if kind == 'root':
        return der_tlv(0x30, der_value('octets', v[0]) +
                       der_value('bool', v[1]) + der_value('enum', v[2]) +
                       der_value('octets', v[3]))
    raise KeyError(kind)


def der_authorizations(entries):
    """entries: {tag: (kind, value)}"""
    return der_tlv(0x30, b''.join(
        der_ctx(t, der_value(*entries[t])) for t in sorted(entries)))


def der_key_description(fields, se, tee):
    """fields: (attVersion, attLevel, kmVersion, kmLevel, challenge, uid)."""
    return der_tlv(
        0x30,
        der_int(fields[0]) + der_int(fields[1], 10) + der_int(fields[2]) +
        der_int(fields[3], 10) + der_tlv(4, fields[4]) +
        der_tlv(4, fields[5]) + der_authorizations(se) +
        der_authorizations(tee))


def der_deep(n):
    """Explicit tags within explicit tags."""
    out, size = [], 2
    for _ in range(n):
        h = bytes([0xA1]) + der_len(size)
        out.append(h)
        size += len(h)
    return b''.join(reversed(out)) + b'\x05\x00'


# Certificates with keys that the library does not support (made with OpenSSL)
ODD_CERTS = {
    'explicit': base64.b64decode(
        'MIICYjCCAgegAwIBAgIUNI2FFPyY9oXebfb8qzxHdlRwc/swCgYIKoZIzj0EAwIwDDEK'
        'MAgGA1UEAwwBYTAeFw0yNjExMTkxNzQxMjlaFw0yNjEyMTkxNzQxMjlaMAwxCjAIBgNV'
        'BAMMAWEwggFLMIIBAwYHKoZIzj0CATCB9wIBATAsBgcqhkjOPQEBAiEA/////wAAAAEA'
        'AAAAAAAAAAAAAAD///////////////8wWwQg/////wAAAAEAAAAAAAAAAAAAAAD/////'
        '//////////wEIFrGNdiqOpPns+u9VXaYhrxlHQawzFOw9jvOPD4n0mBLAxUAxJ02CIbn'
        'BJNqZnjhE50mt4GffpAEQQRrF9Hy4SxCR/i85uVjpEDydwN9gS3rM6D0oTlF2JjClk/j'
        'QuL+Gn+bjufrSnwPnhYrzjNXazFezsu2QGg3v1H1AiEA/////wAAAAD//////////7zm'
        '+q2nF56E87nKwvxjJVECAQEDQgAE1N6HzGUlunO1dgEAWkG7/AtmKJ83PJ+kkeKJDIY/'
        'B9AY5HQ1MJTfKZrdC5Qyz97wYhJaoT2EYlqmiYoJHcTovKNTMFEwHQYDVR0OBBYEFEbr'
        'gPdFu+nrH/565u4sYHorBpq1MB8GA1UdIwQYMBaAFEbrgPdFu+nrH/565u4sYHorBpq1'
        'MA8GA1UdEwEB/wQFMAMBAf8wCgYIKoZIzj0EAwIDSQAwRgIhANWODhFqoUV0PQ0J1c94'
        '+Z2Fs9bnPWCGHuOcTcHGocTFAiEA/bc7bT84Xhk1QXivWkXdaGBEiX0CpWD/DSeL2OQs'
        'Lf4='),
    'curve': base64.b64decode(
        'MIIBZDCCAQ+gAwIBAgIUYHGMMzTSsxhQLSIv26795zeFYrIwCgYIKoZIzj0EAwIwDDEK'
        'MAgGA1UEAwwBYTAeFw0yNjExMTkxNzQxMjlaFw0yNjEyMTkxNzQxMjlaMAwxCjAIBgNV'
        'BAMMAWEwVTATBgcqhkjOPQIBBggqhkjOPQMBBAM+AARGQd8soaXfwkjCrudBh5NFzvOf'
        '/K3Ny0UTqP9I+NNsTfbAsovGEibLA/qZzCmJF7AFBcfwKl7cL4cmvLOjUzBRMB0GA1Ud'
        'DgQWBBT/uuFzekNEbDGa1k0WB/z7Xz8CajAfBgNVHSMEGDAWgBT/uuFzekNEbDGa1k0W'
        'B/z7Xz8CajAPBgNVHRMBAf8EBTADAQH/MAoGCCqGSM49BAMCA0MAMEACHkITus0UKEYN'
        'oafeks6DUlbw95BIwiMXMJeaFAIKRQIeTqmmtOLxhqeqadGwDLvdPbalG47o7uXpPr8S'
        'AjKG'),
}
ODD_EXTS = {
    'ok': [],
    'badext': [('2.5.29.19', b'\x05\x00')],
    'dupext': [('1.2.3.4', b'a'), ('1.2.3.5', b'b')],
    'x400': [('2.5.29.17', bytes.fromhex('3004a3020500'))],
}
