"""Authenticator data layout: every field is read from its place, all of the
bytes are accounted for, and nothing else is accepted."""
from .common import *

ID = 'C17'
REQUIRED = ('plain', 'attested', 'extensions', 'both', 'flags-reject',
            'length-accept', 'length-reject', 'cut-reject', 'tail-reject',
            'free-accept', 'free-reject')
BOUNDS = ('credential ids of up to 64 (thorough: 600) bytes and of 255 to '
          '65535 bytes (40 of them symbolic), extension outputs of up to '
          '500 bytes, keys of the five '
          'kinds, all flag bytes, all counters; data cut at every length and '
          'with up to 3 (thorough: 8) trailing bytes; wholly free data of 34 '
          'to 40 (thorough: 41) bytes with the attested data flag clear')
ASSUMPTIONS = ('CBOR of free bytes is decoded by a model of cbor2 for '
               'definite lengths, integers, strings, arrays, maps, booleans '
               'and null; paths outside it are cut and counted',)


def configs(tier):
    deep = tier == 'thorough'
    out = []
    ids = [0, 1, 16, 64] if not deep else [0, 1, 2, 16, 23, 24, 64, 255, 256,
                                           600]
    for body in ('plain', 'attested', 'extensions', 'both'):
        for i, kind in enumerate(KINDS):
            if body in ('plain', 'extensions') and i:
                continue
            for j, n in enumerate(ids):
                if deep or (i + j) % 2 == 0 or i == 0:
                    out.append({'mode': 'layout', 'body': body, 'kind': kind,
                                'n': n})
    for n in (255, 256, 257, 1023, 1024, 40000, 65535):
        out.append({'mode': 'layout', 'body': 'attested', 'kind': 'ES256',
                    'n': n})
    out.append({'mode': 'layout', 'body': 'both', 'kind': 'Ed25519',
                'n': 40000})
    out.append({'mode': 'layout', 'body': 'both', 'kind': 'Ed25519',
                'n': 300, 'big': 9})
    out.append({'mode': 'layout', 'body': 'extensions', 'kind': 'Ed25519',
                'n': 0, 'big': 500})
    for body in ('plain', 'attested', 'extensions', 'both'):
        out.append({'mode': 'flags', 'body': body})
        out.append({'mode': 'tail', 'body': body,
                    'max': 8 if deep else 3})
    for n in (0, 2, 5) if not deep else (0, 1, 2, 5, 40):
        out.append({'mode': 'length', 'n': n, 'kind': 'ES256'})
        out.append({'mode': 'length', 'n': n, 'kind': 'Ed25519'})
    for body in ('attested', 'both', 'extensions'):
        out.append({'mode': 'cut', 'body': body, 'kind': 'Ed25519'})
    if deep:
        out.append({'mode': 'cut', 'body': 'both', 'kind': 'ES256'})
    for n in list(range(34, 41)) + ([41] if deep else []):
        out.append({'mode': 'free', 'n': n})
    for n in (0, 10, 36):
        out.append({'mode': 'free', 'n': n})
    return out


EXT = {'uvi': b'abc', 'appid': True}


def run(c):
    cfg = c.cfg
    mode = cfg['mode']
    parse = c.M.parsers.parse_authenticator_data
    if mode == 'free':
        return free(c, parse)
    body = cfg.get('body', 'attested')
    n = cfg.get('n', 5)
    at, ed = body in ('attested', 'both'), body in ('extensions', 'both')
    rp = c.bytes('rp', 32)
    f = c.bytes('flags', 1)
    cnt = c.bytes('count', 4)
    want = (AT if at else 0) | (ED if ed else 0)
    bits = f[0] & (AT | ED)
    if mode != 'flags':
        c.assume(bits == want)
    key = make_key(c, cfg.get('kind', 'ES256'),
                   fixed=None if mode == 'layout' else 0)
    aaguid = c.bytes('aaguid', 16) if mode == 'layout' else bytes(16)
    cid = some_bytes(c, 'cid', n) if mode == 'layout' else bytes(n)
    size = n.to_bytes(2, 'big')
    if mode == 'length':
        size = c.bytes('size', 2)
    data = rp + f + cnt
    if at:
        data = data + aaguid + size + cid + c.cbor_encode(cose_dict(key))
    ext = EXT
    if ed:
        if mode == 'layout':
            ext = {'uvi': c.bytes('uvi', 3),
                   'txAuthSimple': c.text('tx', 2, 0, 127)}
            if 'big' in cfg:
                ext['txAuthGeneric'] = some_bytes(c, 'big', cfg['big'])
                ext['exts'] = ['appid', 'x' * cfg['big'], '']
        data = data + c.cbor_encode(ext)
    good = True
    if mode == 'flags':
        good = bits == want
    elif mode == 'length':
        good = c.codes(size)[0] * 256 + c.codes(size)[1] == n
    elif mode == 'cut':
        k = c.choice('cut', list(range(len(data))))
        data = data[:k]
        good = False
    elif mode == 'tail':
        data = data + c.bytes('tail', c.choice('tail_len', list(
            range(1, cfg['max'] + 1))))
        good = False
    r = c.call(parse, data)
    note(c, r)
    tag = body if mode == 'layout' else '%s-%s' % (
        mode, 'accept' if r[0] == 'ok' else 'reject')
    c.reach(tag)
    if r[0] == 'err':
        c.check(c.Not(good), 'well-formed authenticator data is rejected '
                'with ' + type(r[1]).__name__)
        c.check(is_error(c, r, 'ParserError'), 'malformed authenticator data '
                'reported as ' + type(r[1]).__name__)
        return
    c.check(good, 'malformed authenticator data is accepted (%s)' % mode)
    a = r[1]
    c.check(c.eq(a.rp_id_hash, rp), 'wrong RP ID hash')
    c.check(a.flags == f[0], 'wrong flags')
    c.check(a.sign_count == be32(c, cnt), 'wrong signature counter')
    acd = a.attested_credential_data
    c.check((acd is not None) == at, 'attested credential data present or '
            'absent against the flag')
    c.check((a.extensions is not None) == ed, 'extensions present or absent '
            'against the flag')
    if at:
        k = acd.credential_public_key
        c.check(c.And(c.eq(acd.aaguid, aaguid), c.eq(acd.credential_id, cid),
                      acd.credential_id_length == n),
                'wrong attested credential data')
        c.check(type(k).__name__ == type(key.model).__name__,
                'wrong type of key')
        c.check(c.And(c.eq(k.x, key.x), k.crv == key.model.crv,
                      k.alg == key.model.alg, k.kty == key.model.kty),
                'wrong credential public key')
        if key.y is not None:
            c.check(c.eq(k.y, key.y), 'wrong credential public key')
    if ed:
        c.check(c.eq(a.extensions.uvi, ext['uvi']), 'wrong extension output')
        c.check(c.eq(a.extensions.tx_auth_generic, ext.get('txAuthGeneric')),
                'wrong extension output')


def free(c, parse):
    n = c.cfg['n']
    data = c.bytes('data', n)
    if n > 32:
        c.assume((data[32] & AT) == 0)
    r = c.call(parse, data)
    note(c, r)
    c.reach('free-' + ('accept' if r[0] == 'ok' else 'reject'))
    if r[0] == 'err':
        c.check(is_error(c, r, 'ParserError'), 'free authenticator data '
                'rejected with ' + type(r[1]).__name__)
        if n == 37:
            c.check((data[32] & ED) != 0, 'minimal data rejected')
        return
    a = r[1]
    c.check(n >= 37, 'data of less than 37 bytes accepted')
    ed = (data[32] & ED) != 0
    c.check(c.And(c.eq(a.rp_id_hash, data[:32]), a.flags == data[32],
                  a.sign_count == be32(c, data[33:37]),
                  a.attested_credential_data is None),
            'fields are not read from their places')
    c.check(c.And(ed if a.extensions is not None else c.Not(ed),
                  c.Or(ed, n == 37)),
            'bytes are left over, or extensions disagree with the flag')
