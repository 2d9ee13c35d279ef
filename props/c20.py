"""Credential JSON: exactly the documents a browser produces are parsed, every
byte string arrives as it was sent, and jsonify and parse are inverse."""
from .common import *

ID = 'C20'
REQUIRED = ('accept', 'reject', 'attestation', 'assertion', 'assertion-handle',
            'text-accept', 'text-reject', 'roundtrip', 'extra-reject')
BOUNDS = ('byte strings of up to 9 (thorough: 40) bytes; up to two members of '
          'unexpected type, absent or null; one unexpected member of up to 18 '
          'characters; arbitrary printable base64 texts of up to 4 (thorough: '
          '6) characters')
ASSUMPTIONS = ('characters outside the base64 alphabet may be skipped or '
               'rejected: both are accepted',)

FIELDS = {'attestation': ('id', 'type', 'rawId', 'response',
                          'r.clientDataJSON', 'r.attestationObject'),
          'assertion': ('id', 'type', 'rawId', 'response', 'r.clientDataJSON',
                        'r.authenticatorData', 'r.signature',
                        'r.userHandle')}
ODD = [None, 0, 1, True, False, 1.5, b'AAAA', [], ['AAAA'], {}, {'a': 'b'}]
NAMES = {'rawId': 'raw_id', 'r.clientDataJSON': 'client_data_JSON',
         'r.attestationObject': 'attestation_object',
         'r.authenticatorData': 'authenticator_data',
         'r.signature': 'signature', 'r.userHandle': 'user_handle'}


def configs(tier):
    deep = tier == 'thorough'
    out = []
    lens = [0, 1, 2, 3, 4, 9] if not deep else list(range(13)) + [24, 40]
    for shape in FIELDS:
        for h in ((False, True) if shape == 'assertion' else (False,)):
            for n in lens:
                out.append({'mode': 'fields', 'shape': shape, 'handle': h,
                            'n': n, 'vary': []})
                out.append({'mode': 'roundtrip', 'shape': shape, 'handle': h,
                            'n': n})
            for k in (1, 2):
                if k == 2 and h and not deep:
                    continue
                for v in itertools.combinations(FIELDS[shape], k):
                    out.append({'mode': 'fields', 'shape': shape, 'handle': h,
                                'n': 2, 'vary': list(v)})
        for n in (1, 2, 3, 4) if not deep else (1, 2, 3, 4, 5, 6):
            for f in (NAMES if deep else ('rawId', 'r.clientDataJSON',
                                          'r.signature', 'r.userHandle',
                                          'r.attestationObject')):
                if f in FIELDS[shape]:
                    out.append({'mode': 'text', 'shape': shape, 'field': f,
                                'n': n, 'handle': True})
        for n in (2, 4, 9, 14, 17, 18):
            for where in ('top', 'response'):
                out.append({'mode': 'extra', 'shape': shape, 'n': n,
                            'where': where, 'handle': True})
    return out


def std6(c, v):
    return c.ite(c.ge_le(v, 65, 90), v - 65, c.ite(
        c.ge_le(v, 97, 122), v - 71, c.ite(
            c.ge_le(v, 48, 57), v + 4, c.ite(v == 43, 62, 63))))


def is_std(c, v):
    return c.Or(c.ge_le(v, 65, 90), c.ge_le(v, 97, 122), c.ge_le(v, 48, 57),
                v == 43, v == 47)


def same_fields(c, cred, want, shape):
    """cred holds the values in want ({field: value})."""
    r = cred.response
    cls = 'AuthenticatorAttestationResponse' if shape == 'attestation' else \
        'AuthenticatorAssertionResponse'
    c.check(type(cred).__name__ == 'PublicKeyCredential' and
            type(r).__name__ == cls, 'wrong class of response')
    for f, v in want.items():
        if f == 'response':
            continue
        o = r if f.startswith('r.') else cred
        got = getattr(o, NAMES.get(f, f))
        c.check(c.eq(got, v), 'wrong value of ' + f)


def run(c):
    cfg = c.cfg
    shape, mode = cfg['shape'], cfg['mode']
    parse = c.M.parsers.parse_public_key_credential
    n = cfg.get('n', 2) if mode in ('fields', 'roundtrip') else 2
    want = {}
    for i, f in enumerate(FIELDS[shape]):
        if f in ('id', 'type'):
            want[f] = c.text('v.' + f, n, 0, 0xffff)
        elif f == 'r.userHandle' and not cfg.get('handle'):
            want[f] = None
        elif f != 'response':
            want[f] = c.bytes('v.' + f, n + (i % 2))
    if mode == 'roundtrip':
        T = c.M.types
        kw = {NAMES[f]: v for f, v in want.items() if f.startswith('r.')}
        cls = T.AuthenticatorAttestationResponse if shape == 'attestation' \
            else T.AuthenticatorAssertionResponse
        cred = T.PublicKeyCredential(id=want['id'], type=want['type'],
                                     raw_id=want['rawId'], response=cls(**kw))
        r = c.call(c.M.converters.jsonify, cred)
        c.check(r[0] == 'ok', 'a credential has no JSON')
        r = c.call(parse, r[1])
        note(c, r)
        c.check(r[0] == 'ok', 'the JSON of a credential is not parsed')
        c.reach('roundtrip')
        same_fields(c, r[1], want, shape)
        return
    made, good, soft = {}, [], False
    errs = ['ParserError']
    vary = cfg.get('vary', [])
    for f in FIELDS[shape]:
        if f == 'response':
            continue
        v = want[f]
        if v is None and f not in vary:
            continue
        made[f] = v if f in ('id', 'type') else (
            c.std64(v) if v is not None else None)
    if mode == 'text':
        f = cfg['field']
        t = c.text('text', cfg['n'], 33, 126)
        made[f] = t
        cs = c.codes(t)
        for v in cs:
            if not is_std(c, v) and not (v == 61):
                soft = True
        if not soft:
            k = len(cs)
            while k and cs[k - 1] == 61:
                k -= 1
            if c.Or(*[v == 61 for v in cs[:k]]):
                soft = True
            else:
                # k sextets; padded right iff the whole is a multiple of 4
                if (k % 4 == 1) or (len(cs) < k + (-k % 4)):
                    good.append(False)
                elif len(cs) > k + (-k % 4):
                    soft = True
                acc = [std6(c, v) for v in cs[:k]]
                out = []
                for i in range(k * 6 // 8):
                    j, off = i * 8 // 6, i * 8 % 6
                    two = (acc[j] << 6) | (acc[j + 1] if j + 1 < k else 0)
                    out.append((two >> (4 - off)) & 255)
                want[f] = out
    for f in vary:
        how = c.choice('how.' + f, ['odd', 'absent', 'empty'])
        if how == 'absent':
            made.pop(f, None)
            if f == 'response':
                made[f] = how
            if f != 'r.userHandle':
                good.append(False)
            else:
                want[f] = None
        elif how == 'empty':
            made[f] = '' if f != 'response' else {}
            if f == 'response':
                good.append(False)
            elif f in ('id', 'type'):
                want[f] = ''
            else:
                want[f] = b''
        else:
            v = c.choice('odd.' + f, ODD + (['AAAA'] if f == 'response'
                                            else []))
            made[f] = v
            if f == 'r.userHandle' and v is None:
                want[f] = None
            else:
                good.append(False)
    if 'r.attestationObject' in vary and 'r.attestationObject' not in made:
        pass
    resp = {f[2:]: v for f, v in made.items() if f.startswith('r.')}
    data = {f: v for f, v in made.items() if '.' not in f and
            f != 'response'}
    if 'response' in vary:
        if made['response'] != 'absent':
            data['response'] = made['response']
    else:
        data['response'] = resp
    if mode == 'extra':
        k = c.text('key', cfg['n'], 32, 126)
        top = cfg['where'] == 'top'
        d = data if top else resp
        for x in ('id', 'type', 'rawId', 'response') if top else (
                'clientDataJSON', 'attestationObject', 'authenticatorData',
                'signature', 'userHandle'):
            c.assume(c.Not(c.eq(k, x)))
        slots = [(x, True, v) for x, v in d.items()] + [(k, True, 'AAAA')]
        if top:
            data = c.dict(slots)
        else:
            data['response'] = c.dict(slots)
        good.append(False)
    r = c.call(parse, data)
    note(c, r)
    if mode in ('text', 'extra'):
        c.reach('%s-%s' % (mode, 'accept' if r[0] == 'ok' else 'reject'))
    if r[0] == 'err':
        c.check(is_error(c, r, 'ParserError'), 'malformed credential JSON is '
                'reported as ' + type(r[1]).__name__)
        if soft:
            return
        c.check(c.Not(c.And(*good)), 'well-formed credential JSON is '
                'rejected with ' + type(r[1]).__name__)
        if mode == 'text':
            c.check(is_error(c, r, 'DecodingError'), 'broken base64 is not a '
                    'DecodingError')
        return
    if soft:
        return
    c.check(c.And(*good), 'malformed credential JSON is accepted')
    c.reach(shape + ('-handle' if want.get('r.userHandle') is not None
                     else ''))
    if mode == 'text':
        f = cfg['field']
        o = r[1].response if f.startswith('r.') else r[1]
        got = getattr(o, NAMES[f])
        w = want.pop(f)
        c.check(len(got) == len(w) and c.And(*[
            a == b for a, b in zip(list(got), w)]), 'wrong bytes decoded')
    same_fields(c, r[1], want, shape)
