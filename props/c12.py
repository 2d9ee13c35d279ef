"""Assertion signature: valid under the registered key over the authenticator
data followed by the SHA-256 of the client data."""
from .common import *

ID = 'C12'
REQUIRED = ('accept', 'reject', 'bad-signature', 'with-attested-data',
            'invalid-point')
BOUNDS = ('every registered key of the five supported kinds (all coordinate '
          'values), signatures of the usual length (EC: 71/103/138 bytes), '
          'of one byte less, one and two more, and of 0 and 8 bytes; authenticator data with and without extensions '
          'and attested credential data')
ASSUMPTIONS = ('signature verification is an uninterpreted predicate of key, '
               'hash, data and signature (the primitive itself is the '
               'cryptography library)',
               'everything else in the ceremony is honest')


def configs(tier):
    ex = []
    for kind in KINDS:
        for key in ('fixed', 'free'):
            ex.append({'kind': kind, 'key': key})
        ex.append({'kind': kind, 'key': 'fixed', 'len': 8})
        for d in (-1, 1, 2) if tier == 'quick' else (-3, -2, -1, 1, 2, 9):
            ex.append({'kind': kind, 'key': 'fixed', 'len': siglen(kind) + d})
        ex.append({'kind': kind, 'key': 'fixed', 'at': True})
    for alg in ('ES256', 'ES384', 'ES512'):
        for kind in ('ES256', 'ES384', 'ES512'):
            if alg != kind:
                ex.append({'kind': kind, 'key': 'fixed', 'alg': alg})
    ex.append({'kind': 'ES256', 'key': 'fixed', 'len': 0})
    ex.append({'kind': 'ES256', 'key': 'fixed', 'enum': 'Name'})
    ex.append({'kind': 'Ed25519', 'key': 'fixed', 'enum': 'Name'})
    return spread(tier, ex, without=('kind',), which=('get',),
                  strength=1 if tier == 'quick' else 2)


def run(c):
    cfg = c.cfg
    o = dict(cfg['opts'], kind=cfg['kind'], key=cfg['key'],
             at=cfg.get('at', False))
    a = Assertion(c, o)
    if 'alg' in cfg or 'enum' in cfg:
        a.key = make_key(c, cfg['kind'], fixed=0, alg_name=cfg.get('alg'),
                         enum=cfg.get('enum', 'Value'))
        add_key_members(c, a.key, a.o['keyx'])
    if 'len' in cfg:
        a.signature = c.bytes('short', cfg['len'])
    a.sign = False
    a.build()
    r = a.go()
    if cfg.get('at'):
        c.reach('with-attested-data')
    k = a.key
    valid_key = True
    if cfg['key'] == 'free' and k.y is not None:
        valid_key = c.point_valid(k.desc[0], k.x, k.y)
    cond = c.And(valid_key, a.signature_ok())
    if r[0] == 'ok':
        c.check(cond, 'accepted without a valid signature of the registered '
                'key over authenticator data and client data hash')
        return
    c.check(c.Not(cond), 'a valid signature is rejected')
    c.check(len(a.registrar.registered()) == 0, 'registered despite the bad '
            'signature')
    if is_error(c, r, 'VerificationError'):
        c.reach('bad-signature')
        c.check(valid_key, 'VerificationError for an invalid key')
    else:
        c.reach('invalid-point')
        c.check(is_error(c, r, 'PublicKeyConversionError'), 'bad signature '
                'reported as ' + type(r[1]).__name__)
        c.check(c.Not(valid_key), 'a valid key cannot be converted')
