"""Attestation objects: the format names the statement, and only statements
with exactly the members of their format are accepted."""
from symex.ctx import CBOR_KINDS

from .common import *

ID = 'C21'
REQUIRED = ('accept', 'reject', 'decoding', 'fmt-accept', 'fmt-reject',
            'packed', 'packed-x5c', 'packed-ecdaa', 'tpm', 'tpm-x5c',
            'tpm-ecdaa', 'android-key', 'android-safetynet', 'fido-u2f',
            'none')
BOUNDS = ('statements with up to two members varied at once (any integer of '
          '-300..300 or any text for alg, unexpected types, absent, null), '
          'one extra member; format names of up to 17 characters; byte '
          'members of 3 bytes; chains of up to 8 (thorough: 16) certificates, '
          'any one of which may be of another type')
ASSUMPTIONS = ('a document is decoded by cbor2 into the structure it encodes',)

ALG = {-7: 'ES256', -35: 'ES384', -36: 'ES512', -8: 'EdDSA'}
BASE = {'packed': ('alg', 'sig'), 'tpm': ('alg', 'sig', 'ver', 'certInfo',
                                          'pubArea'),
        'android-key': ('alg', 'sig', 'x5c'),
        'android-safetynet': ('ver', 'response'),
        'fido-u2f': ('sig', 'x5c'), 'none': ()}
SHAPES = {}
for _f, _m in BASE.items():
    SHAPES[_f] = (_f, _m)
for _f in ('packed', 'tpm'):
    SHAPES[_f + '-x5c'] = (_f, BASE[_f] + ('x5c',))
    SHAPES[_f + '-ecdaa'] = (_f, BASE[_f] + ('ecdaaKeyId',))
ALL_SHAPES = tuple(SHAPES)
CLASS = {'packed': 'PackedAttestationStatement',
         'packed-x5c': 'PackedX509AttestationStatement',
         'packed-ecdaa': 'PackedECDAAAttestationStatement',
         'tpm': 'TPMAttestationStatement',
         'tpm-x5c': 'TPMX509AttestationStatement',
         'tpm-ecdaa': 'TPMECDAAAttestationStatement',
         'android-key': 'AndroidKeyAttestationStatement',
         'android-safetynet': 'AndroidSafetyNetAttestationStatement',
         'fido-u2f': 'FIDOU2FAttestationStatement',
         'none': 'NoneAttestationStatement'}
ATTR = {'certInfo': 'cert_info', 'pubArea': 'pub_area',
        'ecdaaKeyId': 'ecdaa_key_id'}
ALLM = ('alg', 'sig', 'ver', 'certInfo', 'pubArea', 'x5c', 'ecdaaKeyId',
        'response')
ODD = [None, 0, 1, True, 1.5, b'', 'x', [], {}, [b'a', 'b'], [None]]
ABSENT = object()


def configs(tier):
    deep = tier == 'thorough'
    out = []
    for s, (fmt, ms) in SHAPES.items():
        out.append({'mode': 'stmt', 'shape': s, 'vary': []})
        for m in ms:
            out.append({'mode': 'stmt', 'shape': s, 'vary': [m]})
        if deep:
            for p in itertools.combinations(ms, 2):
                out.append({'mode': 'stmt', 'shape': s, 'vary': list(p)})
        if 'x5c' in ms:
            # long chains, one element of which may be anything
            for n in (3, 4, 5, 8) + ((6, 7, 12, 16) if deep else ()):
                out.append({'mode': 'stmt', 'shape': s, 'vary': [],
                            'chains': [n], 'odd_at': True})
        for m in ALLM:
            if m not in ms:
                out.append({'mode': 'add', 'shape': s, 'm': m})
        for n in (1, 3, 4, 8):
            out.append({'mode': 'extra', 'shape': s, 'n': n})
    for n in (1, 3, 4, 6, 8, 11, 16, 17):
        out.append({'mode': 'fmt', 'n': n})
    for m in ('fmt', 'attStmt', 'authData'):
        out.append({'mode': 'member', 'm': m})
    out += [{'mode': 'kinds'}, {'mode': 'whole'}, {'mode': 'auth'},
            {'mode': 'crossed'}]
    return out


def auth_data(c):
    """Minimal authenticator data with a free hash and counter."""
    return c.bytes('rp', 32) + b'\x05' + c.bytes('count', 4)


def value(c, m, tag=''):
    """A well-formed member and what must be found in the result."""
    nm = 'v%s.%s' % (tag, m)
    if m == 'alg':
        return c.choice(nm, sorted(ALG))
    if m == 'ver':
        return c.text(nm, 3, 0, 0xffff)
    if m == 'x5c':
        return [c.bytes('%s.%d' % (nm, i), 3)
                for i in range(c.choice(nm + '.n', c.cfg.get('chains',
                                                             [0, 1, 2])))]
    return c.bytes(nm, 3)


def good_value(c, m, v):
    if v is ABSENT:
        return False
    k = v.__class__
    if m == 'alg':
        if k is int:
            return c.one_of(v, ALG)
        return k is str and c.Or(*[c.eq(v, x) for x in ALG.values()])
    if m == 'ver':
        return k is str
    if m == 'x5c':
        return k in (list, tuple) and all(x.__class__ is bytes for x in v)
    return k is bytes


def same_value(c, m, got, v):
    if m == 'alg':
        return c.eq(got.value, v) if v.__class__ is str else got.value == v
    if m == 'x5c':
        return len(got) == len(v) and c.And(*[c.eq(x, y)
                                              for x, y in zip(got, v)])
    return c.eq(got, v)


def run(c):
    cfg = c.cfg
    mode = cfg['mode']
    parse = c.M.parsers.parse_attestation_object
    ad = auth_data(c)
    shape = cfg.get('shape', 'none')
    fmt, ms = SHAPES[shape]
    good = True
    stmt, final = {}, None
    if mode == 'kinds':
        r = c.call(parse, c.cbor('ao', lambda c: {}, CBOR_KINDS[1:]))
        note(c, r)
        c.reach('decoding')
        c.check(is_error(c, r, 'DecodingError'), 'undecodable CBOR reported '
                'as ' + type(r[1]).__name__)
        return
    if mode == 'whole':
        v = c.choice('whole', [1, None, True, 1.5, 'x', b'x', [], ['fmt']])
        r = c.call(parse, c.cbor('ao', lambda c: v))
        note(c, r)
        c.check(is_error(c, r, 'ParserError'), 'CBOR other than a map is not '
                'a ParserError')
        return
    if mode in ('stmt', 'add', 'extra'):
        for m in ms:
            stmt[m] = value(c, m)
        for m in cfg.get('vary', ()):
            how = c.choice('how.' + m, ['odd', 'absent', 'int', 'text'])
            if how == 'absent':
                del stmt[m]
            elif how == 'odd':
                stmt[m] = c.choice('odd.' + m, ODD)
            elif how == 'int':
                stmt[m] = c.int('int.' + m, -300, 300)
            else:
                stmt[m] = c.text('text.' + m, 5, 32, 126)
        if cfg.get('odd_at'):
            i = c.choice('odd_at', [None] + list(range(cfg['chains'][0])))
            if i is not None:
                stmt['x5c'][i] = c.choice('element', ['x' * 3, None, 0, True,
                                                      [], {}, b'', [b'abc']])
        good = c.And(*[good_value(c, m, stmt.get(m, ABSENT)) for m in ms])
        # without its optional member the statement has the plain shape
        if mode == 'stmt' and shape != fmt and ms[-1] not in stmt:
            shape, ms = fmt, BASE[fmt]
            good = c.And(*[good_value(c, m, stmt.get(m, ABSENT))
                           for m in ms])
        if mode == 'add':
            m = cfg['m']
            stmt[m] = value(c, m)
            if m == 'x5c' and shape in ('packed', 'tpm'):
                shape, ms = shape + '-x5c', ms + ('x5c',)
            elif m == 'ecdaaKeyId' and shape in ('packed', 'tpm'):
                shape, ms = shape + '-ecdaa', ms + ('ecdaaKeyId',)
            else:
                good = False
        if mode == 'extra':
            k = c.text('key', cfg['n'], 32, 126)
            for m in ALLM:
                c.assume(c.Not(c.eq(k, m)))
            final = c.dict([(m, True, v) for m, v in stmt.items()] +
                           [(k, True, c.choice('extra.v', [None, 1, b'']))])
            good = False
    obj = {'fmt': fmt, 'attStmt': stmt if final is None else final,
           'authData': ad}
    if mode == 'fmt':
        t = c.text('fmt', cfg['n'], 32, 126)
        obj['fmt'] = t
        good = c.eq(t, 'none')
        for f in BASE:
            if f != 'none' and c.eq(t, f):
                shape, ms = f, BASE[f]
                stmt.update({m: value(c, m) for m in ms})
                good = True
                break
    elif mode == 'crossed':
        # every format with the statement of every other
        f = c.choice('fmt', sorted(BASE))
        s = c.choice('shape', sorted(SHAPES))
        obj['fmt'] = f
        ms = SHAPES[s][1]
        obj['attStmt'] = stmt = {m: value(c, m) for m in ms}
        good = False
        for k, (g, m) in SHAPES.items():
            if g == f and set(m) == set(ms):
                good, shape = True, k
    elif mode == 'member':
        m = cfg['m']
        how = c.choice('how', ['odd', 'absent'])
        if how == 'absent':
            del obj[m]
            good = False
        else:
            v = c.choice('odd', [None, 0, True, 1.5, b'none', 'NONE', 'none ',
                                 '', [], ['none'], {'x': 1}, [[]]])
            obj[m] = v
            good = False
    elif mode == 'auth':
        n = c.choice('n', [0, 1, 36, 37, 38, 60])
        obj['authData'] = ad = c.bytes('whole', n)
        if n > 32:
            c.assume((ad[32] & (AT | ED)) == 0)
        good = n == 37
    r = c.call(parse, c.cbor('ao', lambda c: obj))
    note(c, r)
    if mode == 'fmt':
        c.reach('fmt-' + ('accept' if r[0] == 'ok' else 'reject'))
    if r[0] == 'err':
        c.check(c.Not(good), 'a well-formed attestation object is rejected '
                'with ' + type(r[1]).__name__)
        c.check(is_error(c, r, 'ParserError'), 'a malformed attestation '
                'object is reported as ' + type(r[1]).__name__)
        return
    c.check(good, 'a malformed attestation object is accepted')
    c.check(r[1].__class__ is tuple and len(r[1]) == 2, 'not a pair')
    ao, raw = r[1]
    c.reach(shape)
    c.check(type(ao).__name__ == 'AttestationObject', 'wrong class')
    c.check(c.eq(ao.fmt.value, obj['fmt']), 'wrong format')
    c.check(type(ao.att_stmt).__name__ == CLASS[shape],
            'wrong class of statement')
    for m in ms:
        c.check(same_value(c, m, getattr(ao.att_stmt, ATTR.get(m, m)),
                           stmt[m]), 'wrong value of ' + m)
    c.check(c.And(c.eq(ao.auth_data.rp_id_hash, ad[:32]),
                  ao.auth_data.flags == ad[32],
                  ao.auth_data.sign_count == be32(c, ad[33:37])),
            'wrong authenticator data')
    c.check(c.eq(raw['authData'], ad), 'the raw dictionary is not that of '
            'the document')
