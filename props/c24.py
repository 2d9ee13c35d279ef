"""FIDO U2F attestation: one certificate over a P-256 key whose signature
covers RP ID hash, client data hash, credential id and credential key."""
from .common import *

ID = 'C24'
REQUIRED = ('direct-accept', 'direct-reject', 'handler-accept',
            'handler-reject', 'bad-signature', 'bad-cert', 'cert-key',
            'cert-count', 'cred-key')
BOUNDS = ('credential ids of up to 64 bytes, 256 and 1030 (thorough: also 255 to '
          '600) bytes, client data '
          'hashes and RP ID hashes of any value, chains of 0 to 3 '
          'certificates, equal ones among them, over any of twelve kinds of '
          'key, credential keys of the five '
          'kinds, signatures of up to 70 bytes')
ASSUMPTIONS = ('signature validity is an arbitrary relation of key, hash, '
               'data and signature; certificates are their public key and '
               'extensions',)

BAD = ('ok', 'bad', 'explicit', 'curve')


def configs(tier):
    deep = tier == 'thorough'
    out = []
    for via in ('direct', 'handler'):
        for n in (0, 1, 8, 16, 64, 256, 1030) + (
                (2, 3, 32, 255, 300, 600) if deep else ()):
            out.append({'via': via, 'mode': 'sig', 'n': n, 'key': 'fixed'})
        out.append({'via': via, 'mode': 'sig', 'n': 8, 'key': 'free'})
        for n in (0, 1, 8):
            out.append({'via': via, 'mode': 'sig', 'n': 8, 'key': 'fixed',
                        'len': n})
        out.append({'via': via, 'mode': 'count'})
        out.append({'via': via, 'mode': 'badcert'})
        out.append({'via': via, 'mode': 'certkey'})
        for kind in KINDS:
            out.append({'via': via, 'mode': 'cred', 'kind': kind})
        for alg in ('ES384', 'ES512'):
            out.append({'via': via, 'mode': 'cred', 'kind': 'ES256',
                        'alg': alg})
        out.append({'via': via, 'mode': 'flags'})
    out.append({'via': 'direct', 'mode': 'lens'})
    return out


def run(c):
    cfg = c.cfg
    mode = cfg['mode']
    T = c.M.types
    n = cfg.get('n', 8)
    kind = cfg.get('kind', 'ES256')
    key = make_key(c, kind, fixed=None if cfg.get('key') == 'free' else 0,
                   alg_name=cfg.get('alg'))
    att = make_key(c, 'ES256', 'att', fixed=1)
    good = []
    ck, sl = att.desc, siglen('ES256')
    if mode == 'certkey':
        ck, _, sl = cert_key(c, fixed=2)
        good.append(ck[0] == 'secp256r1')
    sig = c.bytes('sig', cfg.get('len', sl))
    chain = [c.cert('cert', lambda c: ck, kinds=BAD if mode == 'badcert'
                    else ('ok',))]
    if mode == 'badcert':
        good.append(c.choice('cert.kind', BAD) == 'ok')
    if mode == 'count':
        m = c.choice('m', ['', '0', '01', '012', '00', '000', '010', '011'])
        docs = [chain[0], c.cert('cert2', lambda c: ck),
                c.cert('cert3', lambda c: ck)]
        chain = [docs[int(i)] for i in m]
        good.append(m == '0')
    cid = some_bytes(c, 'cid', n)
    good.append(key.y is not None and len(key.x) == 32)
    x, y = key.x, key.y if key.y is not None else b''
    if mode == 'lens':
        # keys put together by hand, whose coordinates have any length
        a, b = c.choice('a', [0, 31, 32, 33]), c.choice('b', [0, 31, 32, 33])
        x, y = c.bytes('x', a), c.bytes('y', b)
        key.model = T.EC2CredentialPublicKey(
            kty=T.COSEKeyType.Value.EC2, alg=T.COSEAlgorithmIdentifier.Value
            .ES256, x=x, y=y, crv=T.EC2Curve.Value.P_256)
        good[-1] = a == b == 32
    stmt = {'sig': sig, 'x5c': chain}
    if cfg['via'] == 'direct':
        h, rph = c.bytes('cdh', 32), c.bytes('rph', 32)
        obj = T.AttestationObject(
            auth_data=T.AuthenticatorData(
                rp_id_hash=rph, flags=0x41, sign_count=0,
                attested_credential_data=T.AttestedCredentialData(
                    aaguid=bytes(16), credential_id_length=n,
                    credential_id=cid, credential_public_key=key.model),
                extensions=None),
            fmt=T.AttestationStatementFormatIdentifier.FIDO_U2F,
            att_stmt=T.FIDOU2FAttestationStatement(**stmt))
        raw = c.bytes('raw', 40)
        r = c.call(c.M.attesters.attest, obj.att_stmt, obj, raw, h)
        note(c, r)
    else:
        a = Registration(c, dict(Registration.DEFAULTS, fmt='fido-u2f',
                                 kind=kind, raw_id_len=n))
        a.key = key
        a.raw_id = cid
        a.stmt = stmt
        if mode == 'flags':
            a.aaguid = c.bytes('any-aaguid', 16)
        a.build()
        h, rph = c.sha256(a.cdj), a.rp_id_hash
        r = a.go()
    via = cfg['via']
    c.reach('%s-%s' % (via, 'accept' if r[0] == 'ok' else 'reject'))
    data = b'\x00' + rph + h + cid + b'\x04' + x + y
    if all(good):
        cond = c.sig_valid(ck, 'sha256', data, sig)
    else:
        cond = False
        c.reach({'badcert': 'bad-cert', 'certkey': 'cert-key',
                 'count': 'cert-count'}.get(mode, 'cred-key'))
    if r[0] == 'err':
        c.check(c.Not(cond), 'an honest FIDO U2F attestation is rejected '
                'with ' + type(r[1]).__name__)
        if all(good):
            c.reach('bad-signature')
        c.check(is_error(c, r, 'AttestationError'), 'a failed FIDO U2F '
                'attestation is reported as ' + type(r[1]).__name__)
        if via == 'handler':
            c.check(not a.registrar.registered(), 'registered despite the '
                    'failed attestation')
        return
    c.check(cond, 'an invalid FIDO U2F attestation is accepted')
    if via == 'direct':
        c.check(r[1].__class__ is tuple and len(r[1]) == 2, 'not a pair')
        kind_, path = r[1]
    else:
        call = a.registrar.registered()
        c.check(len(call) == 1, 'not registered once')
        kind_, path = call[0][1]['att_type'], call[0][1]['trusted_path']
    c.check(kind_ == T.AttestationType.BASIC, 'wrong attestation type')
    c.check(path is not None and len(path) == 1 and
            c.cert_is(path[0], chain[0]), 'wrong trusted path')
