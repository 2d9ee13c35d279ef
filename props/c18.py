"""COSE keys: exactly the well-formed EC2 and OKP keys are accepted, and every
member is kept."""
from .common import *

ID = 'C18'
REQUIRED = ('accept', 'reject', 'decoding', 'ec2', 'okp', 'name')
BOUNDS = ('maps with up to two members at a time ranging over all integers of '
          '-300..300, texts of up to 5 characters or registered names, odd '
          'types, absent; coordinates of the right length and of 0, 1 and '
          'off-by-one lengths, and eight lengths of x with eight of y; up to 3 key operations, '
          'also 40; key ids and base IVs of up to 300 bytes')
ASSUMPTIONS = ()

MEMBERS = (1, 2, 3, 4, 5, -1, -2, -3)
ALG = {-7: 'ES256', -35: 'ES384', -36: 'ES512', -8: 'EdDSA'}
CRV = {2: {1: 'P-256', 2: 'P-384', 3: 'P-521'},
       1: {6: 'Ed25519', 7: 'Ed448'}}
LEN = {1: 32, 2: 48, 3: 66, 6: 32, 7: 57}
KTY = {1: 'OKP', 2: 'EC2', 4: 'Symmetric'}
OPS = {1: 'sign', 2: 'verify', 3: 'encrypt', 4: 'decrypt', 5: 'wrap key',
       6: 'unwrap key', 7: 'derive key', 8: 'derive bits', 9: 'MAC create',
       10: 'MAC verify'}


def configs(tier):
    out = []
    for kty in (2, 1):
        ms = [m for m in MEMBERS if kty == 2 or m != -3]
        for kind in KINDS:
            if KINDS[kind][2] == -8 and kty == 2 or \
                    KINDS[kind][2] != -8 and kty == 1:
                continue
            for m in ms:
                if tier == 'thorough' or kind in ('ES256', 'Ed25519') or \
                        m in (-1, -2):
                    out.append({'kind': kind, 'vary': [m], 'raw': False})
        out += [{'kind': k, 'vary': [], 'raw': raw, 'lens': True}
                for k in KINDS if (cose_kty(k) == kty)
                for raw in (False, True)]
        kind = 'ES256' if kty == 2 else 'Ed25519'
        for m in ms:
            out.append({'kind': kind, 'vary': [m], 'raw': True})
        out.append({'kind': kind, 'vary': [], 'raw': False, 'extra': True})
        out.append({'kind': kind, 'vary': [], 'raw': True, 'extra': True})
        pairs = list(itertools.combinations(ms, 2))
        if tier == 'thorough':
            out += [{'kind': kind, 'vary': list(p), 'raw': False}
                    for p in pairs]
        else:
            for p in ((1, -1), (-1, -2), (1, 3)):
                out.append({'kind': kind, 'vary': list(p), 'raw': False})
    for kty in (2, 1):
        for n in (0, 1, 33, 40, 65, 300):
            out.append({'kind': 'ES256' if kty == 2 else 'Ed25519',
                        'vary': [], 'raw': n != 65, 'long': n})
    out.append({'mode': 'kinds'})
    out.append({'mode': 'notmap'})
    out.append({'mode': 'nested'})
    return out


def cose_kty(kind):
    return 1 if KINDS[kind][2] == -8 else 2


def odd(c, name, more=()):
    return c.choice(name + '.odd', [None, True, 1.5, [], {}, b'', ''] +
                    list(more))


ABSENT = object()


def vary(c, m, kty, crv):
    """(value, well-formed) for member m."""
    nm = 'm%d' % m
    names = {1: KTY, 3: ALG, -1: {**CRV[1], **CRV[2]}}.get(m)
    if names is not None:
        how = c.choice(nm + '.how', ['int', 'name', 'text', 'odd', 'absent'])
        if how == 'int':
            return c.int(nm + '.int', -300, 300)
        if how == 'name':
            return c.choice(nm + '.name', sorted(names.values()))
        if how == 'text':
            n = c.choice(nm + '.n', [2, 3, 5])
            return c.text(nm + '.t%d' % n, n, 32, 126)
        if how == 'odd':
            return odd(c, nm, [b'\x01', (1 << 64)])
        return ABSENT
    if m in (2, 5):
        how = c.choice(nm + '.how', ['bytes', 'odd', 'absent'])
        if how == 'bytes':
            return c.bytes(nm + '.bytes', 3)
        return odd(c, nm) if how == 'odd' else ABSENT
    if m == 4:
        how = c.choice(nm + '.how', ['ints', 'names', 'mixed', 'odd',
                                     'absent'])
        if how == 'ints':
            return [c.int(nm + '.op%d' % i, -2, 13)
                    for i in range(c.choice(nm + '.n', [1, 2, 3]))]
        if how == 'names':
            return (c.choice(nm + '.name', sorted(OPS.values())), 'sign')
        if how == 'mixed':
            return [1, c.choice(nm + '.item', [True, None, 1.5, b'x', 'Sign',
                                               [], 0, 11])]
        return odd(c, nm) if how == 'odd' else ABSENT
    # coordinates
    L = LEN[crv]
    how = c.choice(nm + '.how', ['right', 0, 1, L - 1, L + 1, 48, 66, 57,
                                 'odd', 'absent'])
    if how == 'odd':
        return odd(c, nm, ['x' * L])
    if how == 'absent':
        return ABSENT
    n = L if how == 'right' else how
    return c.bytes('%s.b%d' % (nm, n), n)


def known(c, v, table):
    """(condition that v names an entry, code as integer)."""
    t = v.__class__
    if t is int:
        return c.one_of(v, table), v
    if t is str:
        code = 0
        for k, n in table.items():
            code = c.ite(c.eq(v, n), k, code)
        return c.Or(*[c.eq(v, n) for n in table.values()]), code
    return False, 0


def is_member(c, e, v, table):
    """e is the enum member with code or name v."""
    if v.__class__ is int:
        return c.And(e.value == v)
    return c.eq(e.value, v)


def run(c):
    parse = c.M.parsers.parse_cose_key
    mode = c.cfg.get('mode')
    if mode == 'kinds':
        from symex.ctx import CBOR_KINDS
        r = c.call(parse, c.cbor('key', lambda c: {1: 2}, CBOR_KINDS[1:]))
        note(c, r)
        c.reach('decoding')
        c.check(is_error(c, r, 'DecodingError'), 'undecodable CBOR reported '
                'as ' + type(r[1]).__name__)
        return
    if mode == 'notmap':
        v = c.choice('v', [1, [], [1], 'x', b'x', None, True, 1.5])
        r = c.call(parse, c.cbor('key', lambda c: v))
        note(c, r)
        c.check(is_error(c, r, 'ParserError'), 'CBOR other than a map is '
                'not a ParserError')
        return
    if mode == 'nested':
        # the map is found behind nothing: trailing bytes are not part of it
        key = make_key(c, 'ES256')
        raw = c.cbor_encode(cose_dict(key))
        n = c.choice('cut', [1, 2, 30, 60, len(raw) - 1])
        r = c.call(parse, raw[:len(raw) - n])
        note(c, r)
        c.check(is_error(c, r, 'DecodingError'), 'a truncated key is not a '
                'DecodingError')
        return
    kind = c.cfg['kind']
    _, _, alg, crv, n = KINDS[kind]
    base = make_key(c, kind)
    d = dict(cose_dict(base))
    kty = d[1]
    for m in c.cfg['vary']:
        v = vary(c, m, kty, crv)
        if v is ABSENT:
            d.pop(m, None)
        else:
            d[m] = v
    if c.cfg.get('lens'):
        # any lengths of both coordinates together
        for m in (-2, -3)[:kty]:
            i = c.choice('len%d' % m, [n, n - 1, n + 1, n - 2, n + 2, 0,
                                       2 * n, 32 if n != 32 else 48])
            d[m] = c.bytes('len%d.%d' % (m, i), i)
    if c.cfg.get('extra'):
        d[c.choice('extra', [-4, 99, 'x', b'y'])] = 'ignored'
        d[2], d[5], d[4] = c.bytes('kid', 2), c.bytes('iv', 1), [1, 'verify']
    if 'long' in c.cfg:
        d[2] = some_bytes(c, 'kid', c.cfg['long'])
        d[5] = some_bytes(c, 'iv', c.cfg['long'])
        d[4] = sorted(OPS) * 4
    arg = c.cbor('key', lambda c: d) if c.cfg['raw'] else d
    r = c.call(parse, arg)
    note(c, r)
    kok, kcode = known(c, d.get(1), KTY)
    aok, _ = known(c, d.get(3), ALG)
    conds = []
    for code, crvs in CRV.items():
        cok, ccode = known(c, d.get(-1), crvs)
        cs = [kok, kcode == code, aok, cok]
        for m in (-2, -3)[:code]:
            v = d.get(m)
            if v.__class__ is not bytes:
                cs.append(False)
            else:
                cs.append(c.Or(*[c.And(ccode == k, LEN[k] == len(v))
                                 for k in crvs]))
        for m in (2, 5):
            cs.append(d.get(m) is None or d[m].__class__ is bytes)
        ops = d.get(4)
        if ops is not None:
            if ops.__class__ not in (list, tuple) or len(ops) < 1:
                cs.append(False)
            else:
                cs += [known(c, o, OPS)[0] for o in ops]
        conds.append(c.And(*cs))
    good = c.Or(*conds)
    if r[0] == 'err':
        c.check(c.Not(good), 'a well-formed COSE key is rejected with ' +
                type(r[1]).__name__)
        c.check(is_error(c, r, 'ParserError'), 'a malformed COSE key is '
                'reported as ' + type(r[1]).__name__)
        return
    c.check(good, 'a malformed COSE key is accepted')
    k = r[1]
    ec2 = hasattr(k, 'y')
    c.reach('ec2' if ec2 else 'okp')
    if d[3].__class__ is str or d[1].__class__ is str:
        c.reach('name')
    c.check(kcode == (2 if ec2 else 1), 'wrong type of key')
    T = c.M.types
    c.check(type(k).__name__ == ('EC2CredentialPublicKey' if ec2 else
                                 'OKPCredentialPublicKey'),
            'wrong class of key')
    c.check(c.And(is_member(c, k.kty, d[1], KTY),
                  is_member(c, k.alg, d[3], ALG),
                  is_member(c, k.crv, d[-1], CRV)),
            'kty, alg or crv is not the one in the map')
    c.check(c.eq(k.x, d[-2]), 'wrong x coordinate')
    if ec2:
        c.check(c.eq(k.y, d[-3]), 'wrong y coordinate')
    c.check(c.And(c.eq(k.kid, d.get(2)), c.eq(k.base_IV, d.get(5))),
            'key id or base IV is not kept')
    if d.get(4) is None:
        c.check(k.key_ops is None, 'key operations appear from nowhere')
    else:
        c.check(len(k.key_ops) == len(d[4]) and
                c.And(*[is_member(c, e, v, OPS)
                        for e, v in zip(k.key_ops, d[4])]),
                'key operations are not kept')
