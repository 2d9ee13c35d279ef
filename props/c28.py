"""Conversion to cryptography keys keeps the curve and the coordinates, and
fails for points that are not on the curve."""
from .common import *

ID = 'C28'
REQUIRED = ('ec', 'okp', 'invalid', 'length', 'unsupported')
BOUNDS = ('all coordinates of the five kinds; coordinates of up to 70 bytes '
          'for EC2 keys put together by hand (32 and 57 +- 1 for OKP); with '
          'the optional members; with one conversion of any other key before')
ASSUMPTIONS = ('being on the curve is an arbitrary relation of coordinates',)


def configs(tier):
    out = []
    for kind in KINDS:
        for enum in ('Value', 'Name'):
            out.append({'kind': kind, 'enum': enum, 'mode': 'free'})
            out.append({'kind': kind, 'enum': enum, 'mode': 'fixed'})
            out.append({'kind': kind, 'enum': enum, 'mode': 'direct'})
        for kx in ('all', 'ops'):
            for m in ('free', 'fixed'):
                out.append({'kind': kind, 'enum': 'Value', 'mode': m,
                            'keyx': kx})
        for other in KINDS if tier == 'thorough' else (kind, 'ES256'):
            out.append({'kind': kind, 'enum': 'Value', 'mode': 'free',
                        'after': other})
        out.append({'kind': kind, 'enum': 'Value', 'mode': 'length'})
        out.append({'kind': kind, 'enum': 'Value', 'mode': 'base'})
    return out


def run(c):
    cfg = c.cfg
    kind, mode = cfg['kind'], cfg['mode']
    curve, _, _, _, n = KINDS[kind]
    T, M = c.M.types, c.M.converters
    key = make_key(c, kind, enum=cfg['enum'],
                   fixed=0 if mode == 'fixed' else None)
    add_key_members(c, key, cfg.get('keyx', 'none'))
    f = M.cryptography_public_key
    if cfg.get('after'):
        # another key has been converted before, perhaps twice
        first = make_key(c, cfg['after'], 'first')
        r = c.call(f, first.model)
        c.outcome(r[0])
    if mode == 'base':
        base = T.CredentialPublicKey(kty=key.model.kty, alg=key.model.alg)
        for g in (f, M.cose_key, c.M.validators.validate):
            r = c.call(g, base)
            note(c, r)
            c.reach('unsupported')
            c.check(is_error(c, r, 'UnimplementedError'), 'a key of unknown '
                    'class is not an UnimplementedError')
        return
    if mode == 'direct':
        f = M.cryptography_ec2_public_key if key.y is not None else \
            M.cryptography_okp_public_key
    x, y = key.x, key.y
    if mode == 'length':
        c.reach('length')
        if key.y is None:
            m = c.choice('m', [0, n - 1, n + 1])
            key.model.x = c.bytes('short', m)
            r = c.call(f, key.model)
            note(c, r)
            c.check(is_error(c, r, 'PublicKeyConversionError'), 'an OKP key '
                    'of wrong length is not a PublicKeyConversionError')
            return
        m = c.choice('m', [0, 1, n - 1])
        x = key.model.x = c.bytes('short', m)
    r = c.call(f, key.model)
    note(c, r)
    from cryptography.hazmat.primitives.serialization import (Encoding,
                                                              PublicFormat)
    if key.y is None:
        c.check(r[0] == 'ok', 'an OKP key cannot be converted')
        c.reach('okp')
        c.check(okp_class(r[1], curve), 'an OKP key of another curve')
        c.check(c.eq(r[1].public_bytes(Encoding.Raw, PublicFormat.Raw), x),
                'wrong public key')
        return
    valid = c.point_valid(curve, x, y)
    if r[0] == 'err':
        c.reach('invalid')
        c.check(c.Not(valid), 'a valid key cannot be converted')
        c.check(is_error(c, r, 'PublicKeyConversionError'), 'an invalid key '
                'is reported as ' + type(r[1]).__name__)
        return
    c.reach('ec')
    c.check(valid, 'an invalid key is converted')
    pn = r[1].public_numbers()
    c.check(r[1].curve.name == curve, 'wrong curve')
    if mode == 'length':
        x = b'\0' * (n - len(x)) + x
    c.check(c.And(pn.x == num(c, x), pn.y == num(c, y)), 'wrong coordinates')


def num(c, b):
    from symex import models
    return models.int_from_bytes(b, 'big') if c.symbolic else \
        int.from_bytes(b, 'big')


def okp_class(k, curve):
    from cryptography.hazmat.primitives.asymmetric import ed448, ed25519
    return isinstance(k, ed25519.Ed25519PublicKey if curve == 'ed25519'
                      else ed448.Ed448PublicKey)
