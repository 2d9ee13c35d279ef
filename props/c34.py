"""Parsers are total: whatever they are given, they return or raise one of
their documented errors."""
import datetime
import decimal
import fractions
import ipaddress
import uuid

import cbor2
from symex.ctx import CBOR_KINDS, JSON_KINDS

from .common import *

ID = 'C34'
REQUIRED = ('accept', 'reject', 'member', 'key', 'whole', 'bytes', 'origin',
            'base64', 'kinds')
BOUNDS = ('every member of every parsed structure (and every pair of members '
          'of the same structure in the thorough tier) with each of 40 values '
          'of all types that JSON and CBOR have; keys of any type; wholly '
          'free CBOR of up to 3 (thorough: 4) bytes for keys, statements and '
          'extensions; origins of up to 3 (thorough: 5) free characters, also after 88 '
          'fixed ones; '
          'base64 of up to 4 (thorough: 6) free characters')
ASSUMPTIONS = ('a document is decoded into the structure it encodes, or '
               'raises one of the exceptions seen of cbor2 and json',)
BUDGET = {'quick': 250, 'thorough': 740}

JSON_ODD = [None, True, False, 0, -1, 1 << 64, 10 ** 4000, 1.5, float('nan'),
            float('inf'), '', 'x', '\x00', '\ud800', '=', '====', 'A', 'AAAAA',
            '\xe9', 'https://', [], [None], [[]], {}, {'': None}, {'a': {}},
            ['x', 1], ['AAAA'], -10 ** 4000]
CBOR_ODD = [None, True, False, 0, -1, -7, 6, 1 << 64, -(10 ** 4000),
            10 ** 5000, 1.5, float('nan'), float('inf'), b'', b'x' * 3,
            b'x' * 32, '', 'x', 'ES256', 'EdDSA', 'P_256', '\x00', [], [None],
            [b'a', 'x'], [1, 10 ** 5000], [[]], {}, {1: 2}, {'a': b''},
            {(1, 2): 3}, cbor2.undefined, cbor2.CBORSimpleValue(50),
            cbor2.CBORTag(6000, 'x'), decimal.Decimal('1.5'),
            decimal.Decimal('NaN'), fractions.Fraction(1, 3),
            uuid.UUID(int=5), {1}, frozenset(['a']),
            datetime.datetime(2020, 1, 1, tzinfo=datetime.timezone.utc),
            ipaddress.ip_address('1.2.3.4'), {10 ** 5000: 1},
            [{'a': [1.5, None]}], {'latitude': 10 ** 5000},
            {'latitude': decimal.Decimal(1)}, {None: 1}]
KEYS_JSON = ['', 'x', 'ID', '\ud800', 'tokenbinding']
KEYS_CBOR = [0, -9, 99, 10 ** 5000, '', 'x', b'', b'id', None, True, False,
             1.5, float('nan'), (1, 2), (), ((b'a',),), cbor2.undefined,
             cbor2.CBORSimpleValue(50), frozenset([1]), uuid.UUID(int=5),
             ((10 ** 5000,),)]
DEL = object()

CRED_GET = {'id': 'x', 'type': 'public-key', 'rawId': 'AAAA', 'response': {
    'clientDataJSON': 'AAAA', 'authenticatorData': 'AAAA',
    'signature': 'AAAA', 'userHandle': 'AAAA'}}
CRED_CREATE = {'id': 'x', 'type': 'public-key', 'rawId': 'AAAA', 'response': {
    'clientDataJSON': 'AAAA', 'attestationObject': 'AAAA'}}
CLIENT = {'type': GET, 'challenge': 'AAAA', 'origin': ORIGIN, 'tokenBinding': {
    'status': 'present', 'id': 'x'}}
X = bytes(32)
EC2 = {1: 2, 3: -7, 2: b'k', 4: [2], 5: b'iv', -1: 1, -2: X, -3: X}
OKP = {1: 1, 3: -8, 2: b'k', 4: ['verify'], 5: b'iv', -1: 6, -2: X}
EXTS = {'appid': True, 'txAuthSimple': 'x', 'txAuthGeneric': b'x',
        'authnSel': True, 'exts': ['a'], 'uvi': b'x',
        'loc': {'latitude': 1.5, 'speed': 2}, 'uvm': [[1, 2]],
        'biometricPerfBounds': True}
AUTH = bytes(32) + b'\x01' + bytes(4)
STMTS = {
    'none': {}, 'fido-u2f': {'sig': b's', 'x5c': [b'c']},
    'packed': {'alg': -7, 'sig': b's', 'x5c': [b'c']},
    'packed ': {'alg': -7, 'sig': b's', 'ecdaaKeyId': b'c'},
    'tpm': {'ver': '2.0', 'alg': -7, 'sig': b's', 'x5c': [b'c'],
            'certInfo': b'i', 'pubArea': b'p'},
    'tpm ': {'ver': '2.0', 'alg': -7, 'sig': b's', 'ecdaaKeyId': b'c',
             'certInfo': b'i', 'pubArea': b'p'},
    'android-key': {'alg': -7, 'sig': b's', 'x5c': [b'c']},
    'android-safetynet': {'ver': '1', 'response': b'r'}}


def paths(d, at=()):
    """Every place in a structure."""
    out = []
    for k, v in d.items():
        out.append(at + (k,))
        if v.__class__ is dict:
            out += paths(v, at + (k,))
        elif v.__class__ is list:
            out += [at + (k, i) for i in range(len(v))]
    return out


def put(d, path, v):
    if len(path) == 1:
        if v is DEL:
            if d.__class__ is dict:
                d.pop(path[0], None)
            else:
                del d[path[0]]
        else:
            d[path[0]] = v
        return
    put(d[path[0]], path[1:], v)


def clone(x):
    if x.__class__ is dict:
        return {k: clone(v) for k, v in x.items()}
    if x.__class__ is list:
        return [clone(v) for v in x]
    return x


TARGETS = {'cred-get': CRED_GET, 'cred-create': CRED_CREATE,
           'client': CLIENT, 'ec2': EC2, 'okp': OKP, 'exts': EXTS}
for _f, _s in STMTS.items():
    TARGETS['att ' + _f] = {'fmt': _f.strip(), 'attStmt': _s, 'authData': AUTH}


def configs(tier):
    deep = tier == 'thorough'
    out = []
    for t, d in TARGETS.items():
        ps = paths(d)
        for p in ps:
            out.append({'mode': 'member', 'target': t, 'paths': [p]})
        if deep:
            for a, b in itertools.combinations(ps, 2):
                if a != b[:len(a)]:
                    out.append({'mode': 'member', 'target': t,
                                'paths': [a, b]})
        out.append({'mode': 'key', 'target': t})
        out.append({'mode': 'whole', 'target': t})
    for p in ('key', 'att', 'auth'):
        out.append({'mode': 'kinds', 'parser': p})
    out.append({'mode': 'kinds', 'parser': 'client'})
    m = 4 if deep else 3
    for n in range(m + 1):
        out.append({'mode': 'bytes', 'parser': 'key', 'n': n})
        out.append({'mode': 'bytes', 'parser': 'att', 'n': n})
        if n < m:
            out.append({'mode': 'bytes', 'parser': 'ext', 'n': n})
            out.append({'mode': 'bytes', 'parser': 'atted', 'n': n})
    for n in range(6 if deep else 4):
        out.append({'mode': 'origin', 'n': n, 'pre': ''})
        if n < 7:
            out.append({'mode': 'origin', 'n': n, 'pre': 'https://'})
        if n < 6:
            out.append({'mode': 'origin', 'n': n, 'pre': 'http://a:'})
            out.append({'mode': 'origin', 'n': n, 'pre': 'https://[:'})
    for n in (1, 2, 3):
        for pre in ('https://' + 'a.' * 40, 'http://' + 'b' * 80 + ':'):
            out.append({'mode': 'origin', 'n': n, 'pre': pre})
    for n in range(7 if deep else 5):
        out.append({'mode': 'base64', 'n': n})
    return out


def run(c):
    cfg = c.cfg
    mode = cfg['mode']
    P = c.M.parsers
    errors = ('ParserError',)
    if mode == 'origin':
        c.reach('origin')
        errors = ('OriginError',)
        r = c.call(P.parse_origin, cfg['pre'] + c.text('t', cfg['n']))
    elif mode == 'base64':
        c.reach('base64')
        t = c.text('t', cfg['n'])
        d = clone(CRED_GET)
        put(d, ('response', c.choice('at', ['signature', 'userHandle'])), t)
        r = c.call(P.parse_public_key_credential, d)
    elif mode == 'bytes':
        c.reach('bytes')
        p, n = cfg['parser'], cfg['n']
        b = c.bytes('b', n)
        if p == 'key':
            r = c.call(P.parse_cose_key, b)
        elif p == 'att':
            r = c.call(P.parse_attestation_object, b)
        elif p == 'ext':
            r = c.call(P.parse_authenticator_data,
                       bytes(32) + b'\x80' + bytes(4) + b)
        else:
            r = c.call(P.parse_authenticator_data, bytes(32) + b'\x40' +
                       bytes(4) + bytes(16) + b'\x00\x00' + b)
    elif mode == 'kinds':
        c.reach('kinds')
        p = cfg['parser']
        if p == 'client':
            r = c.call(P.parse_client_data, c.json('d', lambda c: CLIENT,
                                                   JSON_KINDS))
        elif p == 'key':
            r = c.call(P.parse_cose_key, c.cbor('d', lambda c: EC2,
                                                CBOR_KINDS))
        elif p == 'att':
            r = c.call(P.parse_attestation_object,
                       c.cbor('d', lambda c: TARGETS['att none'], CBOR_KINDS))
        else:
            # undecodable extensions and keys at the end
            k = c.choice('bad', CBOR_KINDS[1:])
            from symex.models import CBOR_BAD
            head = c.choice('head', [
                b'\x80' + bytes(4), b'\x40' + bytes(4) + bytes(16) +
                b'\x00\x01x'])
            r = c.call(P.parse_authenticator_data,
                       bytes(32) + head + CBOR_BAD[k][0])
    else:
        c.reach(mode)
        t = cfg['target']
        js = t in ('cred-get', 'cred-create', 'client')
        odd = JSON_ODD if js else CBOR_ODD
        d = clone(TARGETS[t])
        if mode == 'whole':
            d = c.choice('v', odd)
        elif mode == 'member':
            for i, p in enumerate(cfg['paths']):
                put(d, p, c.choice('v%d' % i, odd + [DEL]))
        else:
            k = c.choice('k', KEYS_JSON if js else KEYS_CBOR)
            inner = d
            if t == 'client' or t.startswith('cred') or t.startswith('att'):
                if c.choice('in', [False, True]):
                    inner = d[{'client': 'tokenBinding', 'att': 'attStmt'}
                              .get(t.split(' ')[0], 'response')]
            inner[k] = c.choice('v', odd[:6])
        if t == 'client':
            r = c.call(P.parse_client_data, c.json('d', lambda c: d))
        elif t.startswith('cred'):
            if d.__class__ is not dict:
                return          # the signature asks for a dictionary
            r = c.call(P.parse_public_key_credential, d)
        elif t in ('ec2', 'okp'):
            if d.__class__ is dict and c.choice('as', ['bytes', 'dict']) == \
                    'dict':
                r = c.call(P.parse_cose_key, d)
            else:
                r = c.call(P.parse_cose_key, c.cbor('d', lambda c: d))
        elif t == 'exts':
            if d.__class__ is not dict:
                return
            r = c.call(P.parse_extensions, d)
        else:
            r = c.call(P.parse_attestation_object, c.cbor('d', lambda c: d))
    note(c, r)
    c.check(r[0] == 'ok' or is_error(c, r, *errors), 'a parser fails with ' +
            type(r[1]).__name__)
