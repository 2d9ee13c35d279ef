"""verify: succeeds exactly for a valid signature of that key over exactly
that data under the hash its algorithm names."""
from .common import *

ID = 'C27'
REQUIRED = ('ok', 'bad-signature', 'invalid-key', 'no-alg', 'unsupported')
BOUNDS = ('keys of the five kinds with each ECDSA algorithm, by name or '
          'value; data of up to 200 bytes, also of 300 '
          'and 70000 (40 of them symbolic); keys with the optional members; signatures of up to 80 (thorough: '
          '150) bytes; with one verification before')
ASSUMPTIONS = ('signature validity is an arbitrary relation of key, hash, '
               'data and signature',)


def configs(tier):
    deep = tier == 'thorough'
    out = []
    for kind in KINDS:
        ec = KINDS[kind][2] != -8
        for enum in ('Value', 'Name'):
            for alg in ('ES256', 'ES384', 'ES512') if ec else (kind,):
                for n in (0, 37, 69, 200) if deep else (0, 69):
                    out.append({'kind': kind, 'enum': enum, 'alg': alg,
                                'n': n, 'key': 'fixed'})
            out.append({'kind': kind, 'enum': enum, 'alg': kind, 'n': 69,
                        'key': 'free'})
        for m in (0, 1, 63, 64, 65, 80) + ((114, 150) if deep else ()):
            out.append({'kind': kind, 'enum': 'Value', 'alg': kind, 'n': 69,
                        'key': 'fixed', 'len': m})
        if ec:
            out.append({'kind': kind, 'enum': 'Value', 'alg': None, 'n': 3,
                        'key': 'fixed'})
        for n in (0, 1, 300, 70000):
            for kx in ('none', 'all', 'ops'):
                out.append({'kind': kind, 'enum': 'Value', 'alg': kind,
                            'n': n, 'key': 'fixed', 'keyx': kx})
        out.append({'kind': kind, 'base': True})
        for other in KINDS if deep else (kind, 'ES256'):
            out.append({'kind': kind, 'enum': 'Value', 'alg': kind, 'n': 69,
                        'key': 'free', 'after': other})
            out.append({'kind': kind, 'enum': 'Value', 'alg': kind, 'n': 9,
                        'key': 'fixed', 'after': other})
    return out


def run(c):
    cfg = c.cfg
    kind = cfg['kind']
    T = c.M.types
    verify = c.M.verifiers.verify
    if cfg.get('base'):
        key = make_key(c, kind, fixed=0)
        base = T.CredentialPublicKey(kty=key.model.kty, alg=key.model.alg)
        r = c.call(verify, base, b'sig', b'data')
        note(c, r)
        c.reach('unsupported')
        c.check(is_error(c, r, 'UnimplementedError'), 'a key of unknown class '
                'is not an UnimplementedError')
        return
    key = make_key(c, kind, fixed=0 if cfg['key'] == 'fixed' else None,
                   enum=cfg['enum'],
                   alg_name=cfg['alg'] if key_is_ec(kind) else None)
    if cfg['alg'] is None:
        key.model.alg = None
    add_key_members(c, key, cfg.get('keyx', 'none'))
    data = some_bytes(c, 'data', cfg['n'])
    sig = c.bytes('sig', cfg.get('len', siglen(kind)))
    if cfg.get('after'):
        # a signature of another (or this) key, over other data, before
        o = cfg['after']
        k = make_key(c, o, 'first', fixed=1 if cfg['key'] == 'fixed' else None)
        if o == kind and c.choice('same', [False, True]):
            k = key
        d = c.bytes('first.data', cfg['n'])
        r = c.call(verify, k.model, sig if c.choice('again', [
            False, True]) else c.bytes('first.sig', siglen(o)), d)
        c.outcome(r[0])
    r = c.call(verify, key.model, sig, data)
    note(c, r)
    if cfg['alg'] is None:
        c.reach('no-alg')
        c.check(is_error(c, r, 'VerificationError'), 'a key without an '
                'algorithm is not a VerificationError')
        return
    valid = True
    if key.y is not None and cfg['key'] == 'free':
        valid = c.point_valid(key.desc[0], key.x, key.y)
    good = c.And(valid, c.sig_valid(key.desc, key.hash, data, sig))
    if r[0] == 'ok':
        c.reach('ok')
        c.check(good, 'an invalid signature is verified')
        c.check(r[1] is None, 'verify returns something')
        return
    c.check(c.Not(good), 'a valid signature is not verified')
    if is_error(c, r, 'VerificationError'):
        c.reach('bad-signature')
        c.check(valid, 'VerificationError for an invalid key')
    else:
        c.reach('invalid-key')
        c.check(is_error(c, r, 'PublicKeyConversionError'), 'a bad signature '
                'is reported as ' + type(r[1]).__name__)
        c.check(c.Not(valid), 'a valid key cannot be converted')


def key_is_ec(kind):
    return KINDS[kind][2] != -8
