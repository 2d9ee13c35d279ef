"""RP ID hash: authenticator data is bound to SHA-256 of the RP's ID."""
from .common import *

ID = 'C06'
REQUIRED = SIDES
BOUNDS = ('RP IDs of up to 11 and 70 (thorough: 40, 70, 260) characters (ASCII and, for up to '
          '3, any Unicode); all 2^256 hash values')
ASSUMPTIONS = ('SHA-256 is an arbitrary injective function (equal inputs give '
               'equal digests, different inputs different ones)',
               'everything else in the ceremony is honest')


def configs(tier):
    ns = [11, 1, 5, 70] if tier == 'quick' else [0, 1, 2, 5, 11, 20, 40, 70,
                                                     260]
    ex = [{'n': n, 'hi': 126} for n in ns]
    ex += [{'n': n, 'hi': 0x10FFFF} for n in
           ((2,) if tier == 'quick' else (1, 2, 3))]
    return spread(tier, ex)


def run(c):
    T = c.M.types
    a = ceremony(c)
    rp_id = c.text('rp_id', c.cfg['n'], 33, c.cfg['hi'])
    rp = T.PublicKeyCredentialRpEntity(name='RP', id=rp_id)
    a.rp = rp
    if c.cfg['cer'] == 'get':
        if a.rp_arg is not None:
            a.rp_arg = rp
        if a.registered_rp is not None:
            a.registered_rp = T.PublicKeyCredentialRpEntity(
                name='Registered RP', id=rp_id)
    a.rp_id_hash = c.bytes('rp_id_hash', 32)
    a.build()
    r = a.go()
    side(c, r)
    verdict(c, r, c.eq(a.rp_id_hash, c.sha256(rp_id.encode('utf-8'))),
            'the RP ID hash is not that of the RP', 'RPIDHashError')
