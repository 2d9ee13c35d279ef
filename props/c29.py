"""validate: a key is valid exactly when its curve and its algorithm belong
to its type, and registrations only ever take valid keys."""
from .common import *

ID = 'C29'
REQUIRED = ('accept', 'reject', 'parse-accept', 'parse-reject')
BOUNDS = ('every combination of class, curve and algorithm, by name or '
          'value; encoded keys with any algorithm of -300..300 and any curve '
          'of -10..20, after credential ids of 0 to 300 bytes, together with any of the optional members')
ASSUMPTIONS = ()

ECA, OKA = ('ES256', 'ES384', 'ES512'), ('EDDSA',)
ECC, OKC = ('P_256', 'P_384', 'P_521'), ('ED25519', 'ED448')


OPTS = ((), (2,), (4,), (5,), (2, 4), (2, 5), (4, 5), (2, 4, 5))
LEN = {1: 32, 2: 48, 3: 66, 6: 32, 7: 57}


def configs(tier):
    out = []
    for cls in ('EC2', 'OKP'):
        for ea in ('Name', 'Value'):
            for ek in ('Name', 'Value'):
                for ec in ('Name', 'Value'):
                    out.append({'mode': 'object', 'cls': cls, 'ea': ea,
                                'ek': ek, 'ec': ec})
    for kind in KINDS:
        out.append({'mode': 'parse', 'kind': kind})
        out.append({'mode': 'parse', 'kind': kind, 'crv': True})
        # optional members do not matter
        for opt in OPTS[1:]:
            out.append({'mode': 'parse', 'kind': kind, 'opt': opt})
        for n in (0, 1, 300):
            out.append({'mode': 'parse', 'kind': kind, 'id': n})
    return out


def run(c):
    cfg = c.cfg
    T = c.M.types
    if cfg['mode'] == 'object':
        ec = cfg['cls'] == 'EC2'
        alg = c.choice('alg', ECA + OKA)
        crv = c.choice('crv', ECC + OKC)
        C = T.EC2Curve if crv in ECC else T.OKPCurve
        kw = {'kty': getattr(getattr(T.COSEKeyType, cfg['ek']), cfg['cls']),
              'alg': getattr(getattr(T.COSEAlgorithmIdentifier, cfg['ea']),
                             alg),
              'crv': getattr(getattr(C, cfg['ec']), crv),
              'x': c.bytes('x', 32)}
        if ec:
            k = T.EC2CredentialPublicKey(y=c.bytes('y', 32), **kw)
        else:
            k = T.OKPCredentialPublicKey(**kw)
        good = alg in (ECA if ec else OKA) and crv in (ECC if ec else OKC)
        r = c.call(c.M.validators.validate, k)
        note(c, r)
        if r[0] == 'ok':
            c.check(good, 'a key of mixed type is valid')
        else:
            c.check(not good, 'a key is invalid without cause')
            c.check(is_error(c, r, 'ValidationError'), 'an invalid key is '
                    'reported as ' + type(r[1]).__name__)
        return
    key = make_key(c, cfg['kind'], fixed=0)
    d = cose_dict(key)
    d[3] = alg = c.int('alg', -300, 300)
    fits = True
    if cfg.get('crv'):
        # the curve alone, with a suitable algorithm
        d[3] = alg = cose_dict(key)[3]
        d[-1] = crv = c.int('crv', -10, 20)
        n = len(key.x)
        # the length of the coordinates goes with the curve
        fits = c.one_of(crv, [k for k in ((6, 7) if key.y is None else
                                          (1, 2, 3)) if LEN[k] == n])
    opt = cfg.get('opt', ())
    if 2 in opt:
        d[2] = c.bytes('kid', 2)
    if 4 in opt:
        d[4] = [c.int('op%d' % i, 1, 10) for i in range(2)]
    if 5 in opt:
        d[5] = c.bytes('iv', 3)
    n = cfg.get('id', 2)
    data = c.bytes('rp', 32) + b'\x45' + bytes(4) + bytes(16) + \
        n.to_bytes(2, 'big') + some_bytes(c, 'cid', n) + c.cbor_encode(d)
    r = c.call(c.M.parsers.parse_authenticator_data, data)
    note(c, r)
    c.reach('parse-' + ('accept' if r[0] == 'ok' else 'reject'))
    good = c.And(fits, c.one_of(alg, (-8,) if key.y is None else
                                (-7, -35, -36)))
    if r[0] == 'ok':
        c.check(good, 'a key with an algorithm of another type is parsed')
        k = r[1].attested_credential_data.credential_public_key
        c.check(k.alg.value == alg, 'wrong algorithm')
    else:
        c.check(c.Not(good), 'a key with an algorithm of its type is '
                'rejected')
        c.check(is_error(c, r, 'ValidationError', 'ParserError'), 'an invalid '
                'key is reported as ' + type(r[1]).__name__)
        reg = c.And(fits, c.one_of(alg, (-7, -35, -36, -8)))
        c.check(c.implies(reg, is_error(c, r, 'ValidationError')),
                'a registered but unsuitable algorithm is reported as ' +
                type(r[1]).__name__)
