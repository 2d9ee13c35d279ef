"""The Android key description schema: every tag of either authorization list
leads to its field with its value, no tag to any other, what does not follow
the schema is rejected."""
from pyasn1.codec.der.decoder import decode

from .common import *

ID = 'C33'
REQUIRED = ('present', 'absent', 'wrong-kind', 'unknown-tag', 'malformed',
            'header')
BOUNDS = ('each of the 37 tags with the type of its value right or wrong, '
          'in groups whose presence is symbolic, next to all or none of the '
          'others; tags without a field; integers of -2^40..2^40, octets of '
          '0..5, sets of up to 3; definite-length DER')
ASSUMPTIONS = ('pyasn1 decodes DER as its schema says; the decoding model is '
               'driven by the schema objects of the code and checked against '
               'pyasn1 on every path',)

INT, SET, NUL, OCT, ROOT = 'int', 'set', 'null', 'octets', 'root'
TAGS = {
    1: ('purpose', SET), 2: ('algorithm', INT), 3: ('keySize', INT),
    5: ('digest', SET), 6: ('padding', SET), 10: ('ecCurve', INT),
    200: ('rsaPublicExponent', INT), 303: ('rollbackResistance', NUL),
    400: ('activeDateTime', INT), 401: ('originationExpireDateTime', INT),
    402: ('usageExpireDateTime', INT), 503: ('noAuthRequired', NUL),
    504: ('userAuthType', INT), 505: ('authTimeout', INT),
    506: ('allowWhileOnBody', NUL), 507: ('trustedUserPresenceRequired', NUL),
    508: ('trustedConfirmationRequired', NUL),
    509: ('unlockedDeviceRequired', NUL), 600: ('allApplications', NUL),
    601: ('applicationId', OCT), 701: ('creationDateTime', INT),
    702: ('origin', INT), 703: ('rollbackResistant', NUL),
    704: ('rootOfTrust', ROOT), 705: ('osVersion', INT),
    706: ('osPatchLevel', INT), 709: ('attestationApplicationId', OCT),
    710: ('attestationIdBrand', OCT), 711: ('attestationIdDevice', OCT),
    712: ('attestationIdProduct', OCT), 713: ('attestationIdSerial', OCT),
    714: ('attestationIdImei', OCT), 715: ('attestationIdMeid', OCT),
    716: ('attestationIdManufacturer', OCT), 717: ('attestationIdModel', OCT),
    718: ('vendorPatchLevel', INT), 719: ('bootPatchLevel', INT)}
UNKNOWN = (0, 4, 7, 9, 11, 30, 31, 199, 201, 302, 304, 399, 403, 502, 510,
           599, 602, 700, 707, 708, 720, 1702)
HEADER = (('attestationVersion', 'int'), ('attestationSecurityLevel', 'enum'),
          ('keymasterVersion', 'int'), ('keymasterSecurityLevel', 'enum'),
          ('attestationChallenge', 'octets'), ('uniqueId', 'octets'))
BUDGET = {'quick': 200, 'thorough': 740}


def configs(tier):
    size = 6 if tier == 'thorough' else 4
    tags = sorted(TAGS)
    out = []
    for which in ('se', 'tee'):
        for others in ('none', 'all'):
            for i in range(0, len(tags), size):
                out.append({'mode': 'present', 'list': which,
                            'others': others, 'tags': tags[i:i + size]})
        for kind in (INT, SET, NUL, OCT, 'bool', 'enum'):
            out.append({'mode': 'kind', 'list': which, 'kind': kind})
        out.append({'mode': 'unknown', 'list': which})
    for n in (0, 1, 31, 32, 33):
        out.append({'mode': 'header', 'n': n})
    out.append({'mode': 'bad'})
    return out


def make(c, name, kind):
    if kind in (INT, 'enum'):
        return c.int(name, -(1 << 40), 1 << 40)
    if kind == SET:
        v = [c.int('%s.%d' % (name, i), 0, 127)
             for i in range(c.choice(name + '.n', [1, 3, 0]))]
        for a, b in zip(v, v[1:]):
            c.assume(a < b)
        return v
    if kind == OCT:
        return c.bytes(name, c.choice(name + '.n', [2, 0, 5]))
    if kind == NUL:
        return b''
    if kind == 'bool':
        return c.bool(name)
    return (c.bytes(name + '.k', 3), c.bool(name + '.l'),
            c.int(name + '.s', 0, 3), c.bytes(name + '.h', 2))


def few(c, name, kind):
    """As make, with one shape."""
    if kind == SET:
        return [c.int(name, 0, 127)]
    if kind == OCT:
        return c.bytes(name, 2)
    return make(c, name, kind)


def run(c):
    cfg = c.cfg
    mode = cfg['mode']
    fields = (2, 1, 3, 1, b'c', b'')
    lists = {'se': {}, 'tee': {}}
    ok = True
    if mode == 'header':
        n = cfg['n']
        fields = (c.int('v', -1, 1 << 20), c.int('l', 0, 2),
                  c.int('kv', 0, 1 << 40), c.int('kl', 0, 2),
                  c.bytes('challenge', n), c.bytes('uid', 33 - n))
        lists['se'][702] = (INT, c.int('o1', 0, 3))
        lists['tee'][702] = (INT, c.int('o2', 0, 3))
    elif mode == 'present':
        d = lists[cfg['list']]
        for t, (_, k) in TAGS.items():
            if t in cfg['tags']:
                if c.bool('has%d' % t):
                    f = make if cfg['others'] == 'none' and len(
                        cfg['tags']) < 6 else few
                    d[t] = (k, f(c, 't%d' % t, k))
            elif cfg['others'] == 'all':
                d[t] = (k, few(c, 't%d' % t, k))
        # the other list holds some, too
        o = lists['tee' if cfg['list'] == 'se' else 'se']
        for t in (2, 600, 702):
            if c.bool('other'):
                o[t] = (TAGS[t][1], make(c, 'o%d' % t, TAGS[t][1]))
    elif mode == 'kind':
        t = c.choice('tag', sorted(TAGS))
        k = cfg['kind']
        lists[cfg['list']][t] = (k, few(c, 'wrong', k))
        ok = k == TAGS[t][1]
        if not ok:
            c.reach('wrong-kind')
    elif mode == 'unknown':
        t = c.choice('tag', UNKNOWN)
        k = c.choice('kind', [INT, SET, NUL, OCT])
        d = lists[cfg['list']]
        d[t] = (k, few(c, 'u', k))
        for x in (1, 600, 702):
            if c.choice('near', [False, True]):
                d[x] = (TAGS[x][1], few(c, 't%d' % x, TAGS[x][1]))
        ok = False
        c.reach('unknown-tag')
    der = c.key_description('kd', lambda c: fields, lambda c: lists['se'],
                            lambda c: lists['tee'],
                            ('ok', 'bad') if mode == 'bad' else ('ok',))
    if mode == 'bad':
        ok = c.choice('kd.kind', ('ok', 'bad')) == 'ok'
        if not ok:
            c.reach('malformed')
    r = c.call(decode, der, c.M.asn1.KeyDescription())
    c.outcome(r[0])
    if not ok:
        c.check(r[0] == 'err', 'a key description that does not follow the '
                'schema is decoded')
        return
    c.check(r[0] == 'ok', 'a key description that follows the schema is not '
            'decoded')
    kd, rest = r[1]
    c.check(len(rest) == 0, 'bytes left')
    c.reach('header')
    for (name, k), v in zip(HEADER, fields):
        c.check(c.eq(c.asn1(kd[name], k), v), 'wrong ' + name)
    for which, name in (('se', 'softwareEnforced'), ('tee', 'teeEnforced')):
        got = kd[name]
        for t, (field, k) in TAGS.items():
            x = got[field]
            if t not in lists[which]:
                c.reach('absent')
                c.check(not x.hasValue(), '%s has %s without tag %d' % (
                    name, field, t))
                continue
            c.reach('present')
            v = lists[which][t][1]
            c.check(x.hasValue(), '%s lacks %s with tag %d' % (name, field,
                                                               t))
            if k == ROOT:
                for f, w, kk in zip(
                        ('verifiedBootKey', 'deviceLocked',
                         'verifiedBootState', 'verifiedBootHash'), v,
                        ('octets', 'bool', 'int', 'octets')):
                    g = c.asn1(x[f], kk)
                    c.check(c.eq(bool(g) if kk == 'bool' and
                                 g.__class__ is int else g, w), 'wrong ' + f)
            elif k != NUL:
                c.check(c.eq(c.asn1(x, k), v), 'wrong %s in %s' % (field,
                                                                   name))
