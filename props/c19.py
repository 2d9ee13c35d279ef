"""COSE encoding: cose_key followed by parse_cose_key gives the key back."""
from .common import *

ID = 'C19'
REQUIRED = ('value', 'name', 'optional', 'order')
BOUNDS = ('keys of the five kinds with all coordinate values; key ids and '
          'base IVs of 0..3 (thorough: 30) bytes; up to 10 key operations')
ASSUMPTIONS = ('cbor2.dumps is modelled for the types that occur',)


def configs(tier):
    out = []
    for kind in KINDS:
        for enum in ('Value', 'Name'):
            for kid, iv, ops in ((None, None, 0), (0, None, 1), (None, 2, 3),
                                 (3, 1, 10), (1, 0, 0), (None, None, 2)):
                out.append({'kind': kind, 'enum': enum, 'kid': kid, 'iv': iv,
                            'ops': ops})
    if tier == 'thorough':
        for kind in KINDS:
            for kid in (23, 24, 30):
                out.append({'kind': kind, 'enum': 'Value', 'kid': kid,
                            'iv': 24, 'ops': 1})
    return out


def run(c):
    cfg = c.cfg
    T = c.M.types
    Op = getattr(T.COSEKeyOperation, cfg['enum'])
    ops = None
    if cfg['ops'] == 10:
        ops = list(Op)
    elif cfg['ops']:
        ops = [c.choice('op%d' % i, list(Op)[i::3])
               for i in range(cfg['ops'])]
    kid = None if cfg['kid'] is None else c.bytes('kid', cfg['kid'])
    iv = None if cfg['iv'] is None else c.bytes('iv', cfg['iv'])
    k = make_key(c, cfg['kind'], enum=cfg['enum'], kid=kid, base_IV=iv,
                 key_ops=ops).model
    r = c.call(c.M.converters.cose_key, k)
    c.outcome(r[0])
    c.check(r[0] == 'ok', 'cose_key fails')
    c.check(r[1].__class__ is bytes, 'cose_key does not return bytes')
    c.reach('name' if cfg['enum'] == 'Name' else 'value')
    back = c.call(c.M.parsers.parse_cose_key, r[1])
    c.check(back[0] == 'ok', 'the encoded key cannot be parsed')
    b = back[1]
    c.check(type(b) is type(k), 'another class of key comes back')
    c.check(c.And(b.kty is k.kty, b.alg is k.alg, b.crv is k.crv,
                  c.eq(b.x, k.x)), 'kty, alg, crv or x changed')
    if hasattr(k, 'y'):
        c.check(c.eq(b.y, k.y), 'y changed')
    if kid is not None or iv is not None or ops is not None:
        c.reach('optional')
    c.check(c.And(c.eq(b.kid, kid), c.eq(b.base_IV, iv)),
            'the key id or the base IV changed')
    if ops is None:
        c.check(b.key_ops is None, 'key operations appeared')
    else:
        c.check(b.key_ops is not None and list(b.key_ops) == list(ops),
                'the key operations changed')
    again = c.call(c.M.converters.cose_key, b)
    c.reach('order')
    c.check(again[0] == 'ok' and c.eq(again[1], r[1]),
            'encoding the parsed key gives other bytes')
