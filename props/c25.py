"""Android key attestation: the certificate is over the credential key, its
signature covers authenticator data and client data hash, and its key
description meets the requirements on challenge, applications, origin and
purpose."""
from symex.ctx import CERT_KINDS, DER_KINDS
from .common import *

ID = 'C25'
REQUIRED = ('direct-accept', 'direct-reject', 'handler-accept',
            'handler-reject', 'bad-signature', 'bad-cert', 'cert-key',
            'no-certs', 'no-extension', 'bad-description', 'challenge',
            'applications', 'origin', 'purpose')
BOUNDS = ('credential keys of the five kinds with fixed or free coordinates; '
          'certificate keys of any kind, equal or not; chains of 0 to 5; '
          'all versions and security levels; '
          'challenges of 0, 31, 32 and 33 bytes; origins of -2..70000; '
          'up to 3 purposes of -1..300; allApplications in either list')
ASSUMPTIONS = ('signature validity is an arbitrary relation of key, hash, '
               'data and signature',
               'DER decoding of a key description follows its schema (C33)')

ALGS = {'ES256': -7, 'ES384': -35, 'ES512': -36, 'EdDSA': -8}


def configs(tier):
    out = []
    for via in ('direct', 'handler'):
        for kind in KINDS:
            out.append({'via': via, 'mode': 'sig', 'kind': kind})
        for kind in ('ES256', 'Ed25519'):
            out.append({'via': via, 'mode': 'sig', 'kind': kind, 'free': 1})
            for m in ('same', 'certkey', 'chain', 'badcert', 'noext', 'badkd',
                      'otherext'):
                out.append({'via': via, 'mode': m, 'kind': kind})
        for n in (0, 31, 32, 33):
            out.append({'via': via, 'mode': 'challenge', 'n': n,
                        'kind': 'ES256'})
        for se in (False, True):
            for tee in (False, True):
                out.append({'via': via, 'mode': 'apps', 'se': se, 'tee': tee,
                            'kind': 'ES256'})
        for s in ('one', 'none', 'software', 'both'):
            out.append({'via': via, 'mode': 'origin', 'where': s,
                        'kind': 'ES256'})
            out.append({'via': via, 'mode': 'purpose', 'where': s,
                        'kind': 'ES256'})
        for n in (0, 1, 2, 3):
            out.append({'via': via, 'mode': 'purpose', 'where': 'one', 'n': n,
                        'kind': 'ES256'})
        for alg in ('ES256', 'ES384', 'ES512', 'EdDSA'):
            out.append({'via': via, 'mode': 'alg', 'alg': alg,
                        'kind': 'ES256'})
            out.append({'via': via, 'mode': 'alg', 'alg': alg,
                        'kind': 'ES384'})
    return out


def kd_fields(c, challenge):
    """Versions and security levels do not matter, nor does the unique id."""
    return (c.int('attestationVersion', 0, 400), c.int('level', 0, 2),
            c.int('keymasterVersion', 0, 400), c.int('level2', 0, 2),
            challenge, c.bytes('uniqueId', 3))


def run(c):
    cfg = c.cfg
    mode, via, kind = cfg['mode'], cfg['via'], cfg['kind']
    T = c.M.types
    key = make_key(c, kind, fixed=None if cfg.get('free') else 0)
    good = []
    tag = None

    def bad(cond, t):
        nonlocal tag
        good.append(cond)
        tag = t
    if via == 'direct':
        h, ad = c.bytes('cdh', 32), c.bytes('ad', 45)
    else:
        a = Registration(c, dict(Registration.DEFAULTS, fmt='android-key',
                                 kind=kind))
        a.key = key
        a.cdj = a.client_data()
        h = c.sha256(a.cdj)
        a.ad = ad = a.auth_data()
    ck, sl = key.desc, siglen(kind)
    if mode == 'same':
        # a certificate over another key of the same kind
        other = make_key(c, kind, 'other')
        ck = other.desc
        if key.y is not None:
            bad(c.And(c.point_valid(ck[0], ck[1], ck[2]),
                      c.eq(ck[1], key.x), c.eq(ck[2], key.y)), 'cert-key')
        else:
            bad(c.eq(ck[1], key.x), 'cert-key')
    elif mode == 'certkey':
        ck, k2, sl = cert_key(c)
        bad(k2 == kind, 'cert-key')
    sig = c.bytes('sig', sl)
    challenge = h
    if mode == 'challenge':
        challenge = c.bytes('challenge.kd', cfg['n'])
        bad(c.eq(challenge, h), 'challenge')
    se, tee = {}, {1: ('set', [2]), 702: ('int', 0)}
    if mode == 'apps':
        if cfg['se']:
            se[600] = ('null', None)
        if cfg['tee']:
            tee[600] = ('null', None)
        bad(not cfg['se'] and not cfg['tee'], 'applications')
    elif mode == 'origin':
        v = c.int('origin.kd', -2, 70000)
        w = cfg['where']
        if w in ('software', 'none'):
            del tee[702]
        else:
            tee[702] = ('int', v)
        if w in ('software', 'both'):
            se[702] = ('int', 0 if w == 'software' else c.int('o2', 0, 3))
        bad(w in ('one', 'both') and c.And(v == 0), 'origin')
    elif mode == 'purpose':
        n = cfg.get('n', 1)
        vs = [c.int('purpose%d' % i, -1, 300) for i in range(n)]
        for i in range(n - 1):
            c.assume(vs[i] < vs[i + 1])
        w = cfg['where']
        if w in ('software', 'none'):
            del tee[1]
        else:
            tee[1] = ('set', vs)
        if w in ('software', 'both'):
            se[1] = ('set', [2] if w == 'software' else [3])
        bad(w in ('one', 'both') and c.Or(*[v == 2 for v in vs]), 'purpose')
    kd = c.key_description(
        'kd', lambda c: kd_fields(c, challenge), lambda c: se,
        lambda c: tee, DER_KINDS if mode == 'badkd' else ('ok',))
    if mode == 'badkd':
        bad(c.choice('kd.kind', DER_KINDS) == 'ok', 'bad-description')
    exts = [(ANDROID_OID, kd)]
    if mode == 'noext':
        exts = []
        bad(False, 'no-extension')
    elif mode == 'otherext':
        oid = c.choice('oid', [ANDROID_OID[:-1] + '8', '1.2.3.4'])
        exts = [(oid, kd)]
        bad(False, 'no-extension')
    cert = c.cert('cert', lambda c: ck, lambda c: exts,
                  CERT_KINDS if mode == 'badcert' else ('ok',))
    if mode == 'badcert':
        bad(c.choice('cert.kind', CERT_KINDS) == 'ok', 'bad-cert')
    chain = [cert]
    if mode == 'chain':
        second = c.cert('cert2', lambda c: make_key(c, 'ES256', 'c2',
                                                    fixed=3).desc)
        chain = c.choice('chain', [[], [0], [0, 0], [0, 1], [1, 0],
                                     [1, 1], [0, 1, 1], [0, 1, 1, 1],
                                     [1, 0, 0, 0], [0, 0, 0, 0, 0]])
        bad(chain[:1] == [0], 'cert-key' if chain else 'no-certs')
        chain = [(cert, second)[i] for i in chain]
    alg = cfg.get('alg', {'Ed25519': 'EdDSA', 'Ed448': 'EdDSA'}.get(kind,
                                                                    kind))
    if via == 'direct':
        A = T.COSEAlgorithmIdentifier.Value
        obj = T.AttestationObject(
            auth_data=T.AuthenticatorData(
                rp_id_hash=ad[:32], flags=0x41, sign_count=0,
                attested_credential_data=T.AttestedCredentialData(
                    aaguid=bytes(16), credential_id_length=2,
                    credential_id=b'id', credential_public_key=key.model),
                extensions=None),
            fmt=T.AttestationStatementFormatIdentifier.ANDROID_KEY,
            att_stmt=T.AndroidKeyAttestationStatement(
                alg=A(ALGS[alg]), sig=sig, x5c=chain))
        r = c.call(c.M.attesters.attest, obj.att_stmt, obj, ad, h)
        note(c, r)
    else:
        a.client_data = lambda: a.cdj
        a.stmt = {'alg': ALGS[alg], 'sig': sig, 'x5c': chain}
        a.build()
        r = a.go()
    c.reach('%s-%s' % (via, 'accept' if r[0] == 'ok' else 'reject'))
    conds = list(good)
    valid_key = True
    if key.y is not None and cfg.get('free'):
        valid_key = c.point_valid(key.desc[0], key.x, key.y)
    conds.append(valid_key)
    if ck[0] in keys.CURVES and alg == 'EdDSA':
        conds.append(False)
    elif ck[0] not in ('rsa', 'dsa'):
        conds.append(c.sig_valid(
            ck, KINDS[alg][1] if ck[0] in keys.CURVES else 'eddsa', ad + h,
            sig))
    cond = c.And(*conds)
    if tag is not None:
        if r[0] == 'err':
            c.reach(tag)
    elif r[0] == 'err':
        c.reach('bad-signature')
    if r[0] == 'err':
        c.check(c.Not(cond), 'an honest Android key attestation is rejected '
                'with ' + type(r[1]).__name__)
        c.check(c.Or(is_error(c, r, 'AttestationError'), c.And(
            is_error(c, r, 'PublicKeyConversionError'), c.Not(valid_key))),
                'a failed Android key attestation is '
                'reported as ' + type(r[1]).__name__)
        if via == 'handler':
            c.check(not a.registrar.registered(), 'registered despite the '
                    'failed attestation')
        return
    c.check(cond, 'an invalid Android key attestation is accepted')
    if via == 'direct':
        c.check(r[1].__class__ is tuple and len(r[1]) == 2, 'not a pair')
        kind_, path = r[1]
    else:
        call = a.registrar.registered()
        c.check(len(call) == 1, 'not registered once')
        kind_, path = call[0][1]['att_type'], call[0][1]['trusted_path']
    c.check(kind_ == T.AttestationType.BASIC, 'wrong attestation type')
    c.check(path is not None and len(path) == 1 and
            c.cert_is(path[0], cert), 'wrong trusted path')
