"""Honest WebAuthn ceremonies with real keys, for the demonstrations."""
import base64
import datetime
import hashlib
import json
import struct
import sys

import cbor2
from cryptography import x509
from cryptography.hazmat.backends import default_backend
from cryptography.hazmat.primitives import hashes
from cryptography.hazmat.primitives.asymmetric import ec, ed448, ed25519
from cryptography.hazmat.primitives.serialization import Encoding, PublicFormat
from pyasn1.codec.der.encoder import encode

sys.path.insert(0, '.')
sys.dont_write_bytecode = True

from webauthn_rp import asn1, attesters, backends, builders, converters  # noqa
from webauthn_rp import errors, parsers, registrars, types, utils  # noqa
from webauthn_rp import validators, verifiers  # noqa

T = types


def need(cond, what):
    if not cond:
        print('FAIL:', what)
        sys.exit(1)


def sha(b):
    return hashlib.sha256(b).digest()


def url64(b):
    return base64.urlsafe_b64encode(b).rstrip(b'=').decode()


class Key:
    CURVES = {'ES256': (ec.SECP256R1, 1, 32, -7, hashes.SHA256),
              'ES384': (ec.SECP384R1, 2, 48, -35, hashes.SHA384),
              'ES512': (ec.SECP521R1, 3, 66, -36, hashes.SHA512)}

    def __init__(self, kind='ES256', alg=None, private=None):
        self.kind = kind
        if kind in self.CURVES:
            curve, crv, n, code, h = self.CURVES[kind]
            self.priv = private or ec.generate_private_key(
                curve(), default_backend())
            nums = self.priv.public_key().public_numbers()
            self.x = nums.x.to_bytes(n, 'big')
            self.y = nums.y.to_bytes(n, 'big')
            self.hash = h
            if alg:
                code, self.hash = self.CURVES[alg][3:]
            self.cose = {1: 2, 3: code, -1: crv, -2: self.x, -3: self.y}
        else:
            self.priv = (ed25519.Ed25519PrivateKey if kind == 'Ed25519' else
                         ed448.Ed448PrivateKey).generate()
            self.x = self.priv.public_key().public_bytes(
                Encoding.Raw, PublicFormat.Raw)
            self.cose = {1: 1, 3: -8, -1: 6 if kind == 'Ed25519' else 7,
                         -2: self.x}

    def sign(self, data):
        if self.kind in self.CURVES:
            return self.priv.sign(data, ec.ECDSA(self.hash()))
        return self.priv.sign(data)

    @property
    def model(self):
        return parsers.parse_cose_key(dict(self.cose))

    def cert(self, extensions=(), signer=None):
        n = x509.Name([x509.NameAttribute(x509.oid.NameOID.COMMON_NAME, 'x')])
        b = x509.CertificateBuilder(
            issuer_name=n, subject_name=n, serial_number=1,
            not_valid_before=datetime.datetime(2000, 1, 1),
            not_valid_after=datetime.datetime(2100, 1, 1),
            public_key=self.priv.public_key(), extensions=list(extensions))
        alg = hashes.SHA256() if self.kind in self.CURVES else None
        return b.sign(self.priv, alg, default_backend()).public_bytes(
            Encoding.DER)


def description(challenge, sw=(), tee=(('purpose', [2]), ('origin', 0))):
    kd = asn1.KeyDescription()
    kd['attestationVersion'] = 2
    kd['attestationSecurityLevel'] = 0
    kd['keymasterVersion'] = 1
    kd['keymasterSecurityLevel'] = 0
    kd['attestationChallenge'] = challenge
    kd['uniqueId'] = b''
    for name, fields in (('softwareEnforced', sw), ('teeEnforced', tee)):
        al = asn1.AuthorizationList()
        for k, v in fields:
            if isinstance(v, list):
                for i, x in enumerate(v):
                    al[k][i] = x
            else:
                al[k] = v
        kd[name] = al
    return encode(kd)


def android_ext(der):
    return x509.Extension(
        oid=x509.ObjectIdentifier('1.3.6.1.4.1.11129.2.1.17'), critical=False,
        value=x509.UnrecognizedExtension(
            x509.ObjectIdentifier('1.3.6.1.4.1.11129.2.1.17'), der))


class Registrar(registrars.CredentialsRegistrar):
    def __init__(self, data=None):
        self.data = data
        self.calls = []
        self.answer = None

    def register_credential_attestation(self, **kw):
        self.calls.append(('att', kw))
        return self.say()

    def register_credential_assertion(self, **kw):
        self.calls.append(('assert', kw))
        return self.say()

    def say(self):
        if isinstance(self.answer, Exception):
            raise self.answer
        return self.answer

    def get_credential_data(self, credential_id):
        self.asked = credential_id
        if isinstance(self.data, Exception):
            raise self.data
        return self.data


RP = T.PublicKeyCredentialRpEntity(name='rp', id='example.org')
USER = T.PublicKeyCredentialUserEntity(name='u', id=b'user-id',
                                       display_name='U')


def auth_data(rp_id='example.org', flags=1, count=1, acd=b'', ext=None,
              rp_hash=None):
    if ext is not None:
        flags |= 0x80
    if acd:
        flags |= 0x40
    return ((rp_hash if rp_hash is not None else sha(rp_id.encode())) +
            bytes([flags]) + struct.pack('>I', count) + acd +
            (cbor2.dumps(ext) if ext is not None else b''))


def acd(key, cid=b'credential-id', aaguid=b'a' * 16):
    return aaguid + struct.pack('>H', len(cid)) + cid + cbor2.dumps(key.cose)


def client_data(type_, challenge=b'c' * 16, origin='https://example.org',
                text=None, **more):
    d = {'type': type_, 'challenge': text if text is not None else
         url64(challenge), 'origin': origin}
    d.update(more)
    return json.dumps(d).encode()


def call(f, *a, **k):
    try:
        return ('ok', f(*a, **k))
    except Exception as e:
        return (type(e).__name__, e)


def reg(key=None, cdj=None, ad=None, fmt='none', stmt=None, registrar=None,
        cid=b'credential-id', raw_id=None, **kw):
    key = key or Key()
    registrar = registrar or Registrar()
    cdj = cdj if cdj is not None else client_data('webauthn.create')
    ad = ad if ad is not None else auth_data(acd=acd(key, cid))
    stmt = stmt(ad, sha(cdj)) if callable(stmt) else (stmt or {})
    cred = T.PublicKeyCredential(
        id='id', type='public-key', raw_id=cid if raw_id is None else raw_id,
        response=T.AuthenticatorAttestationResponse(
            client_data_JSON=cdj, attestation_object=cbor2.dumps(
                {'fmt': fmt, 'attStmt': stmt, 'authData': ad})))
    args = dict(credential=cred, user=USER, rp=RP,
                expected_challenge=b'c' * 16,
                expected_origin='https://example.org')
    args.update(kw)
    r = call(backends.CredentialsBackend(
        registrar).handle_credential_attestation, **args)
    return r[0], registrar, r[1]


def auth(key=None, cdj=None, ad=None, registrar=None, sig=None,
         raw_id=b'credential-id', handle=b'user-id', stored=0, reg_rp=RP,
         reg_user=USER, pub=None, **kw):
    key = key or Key()
    registrar = registrar or Registrar(T_CredentialData(
        credential_public_key=pub if pub is not None else key.model,
        signature_count=stored, user_entity=reg_user, rp_entity=reg_rp))
    cdj = cdj if cdj is not None else client_data('webauthn.get')
    ad = ad if ad is not None else auth_data()
    sig = sig if sig is not None else key.sign(ad + sha(cdj))
    cred = T.PublicKeyCredential(
        id='id', type='public-key', raw_id=raw_id,
        response=T.AuthenticatorAssertionResponse(
            client_data_JSON=cdj, authenticator_data=ad, signature=sig,
            user_handle=handle))
    args = dict(credential=cred, expected_challenge=b'c' * 16,
                expected_origin='https://example.org')
    args.update(kw)
    r = call(backends.CredentialsBackend(
        registrar).handle_credential_assertion, **args)
    return r[0], registrar, r[1]


def T_CredentialData(**kw):
    from webauthn_rp.registrars import CredentialData
    return CredentialData(**kw)
