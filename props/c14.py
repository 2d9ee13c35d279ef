"""Registrar protocol: the registrar is told about a credential exactly once,
with the data of this ceremony, after every check has passed, and never when
the ceremony fails; its refusals are RegistrationErrors."""
from .common import *

ID = 'C14'
REQUIRED = SIDES + ('registrar-refused', 'registrar-raised', 'get-raised',
                    'get-none', 'twice', 'key-changed')
BOUNDS = ('challenge, RP ID hash, flags, user id, counter and signatures all '
          'free at once; two ceremonies in sequence on one backend')
ASSUMPTIONS = ('signature verification is an uninterpreted predicate',)


def configs(tier):
    ex = [{'mode': 'free'}]
    ex += [{'mode': 'result', 'i': i} for i in range(6)]
    ex += [{'mode': 'raise', 'i': i} for i in range(3)]
    ex += [{'mode': 'get', 'i': i, 'cer': 'get'} for i in range(3)]
    ex += [{'mode': 'get-none', 'cer': 'get'}]
    ex += [{'mode': 'twice'}, {'mode': 'key', 'cer': 'get'}]
    out = spread(tier, ex)
    for cer in ('get', 'create'):
        rows = CEREMONIES[cer].rows('quick')
        for i, n in enumerate((0, 1, 64) if tier == 'quick' else
                              (0, 1, 2, 15, 16, 17, 32, 64, 128)):
            out.append({'mode': 'free', 'cer': cer, 'id_len': n,
                        'opts': rows[i + 2]})
    for e in ex:
        for cer in ('get', 'create'):
            if e.get('cer', cer) == cer:
                rows = CEREMONIES[cer].rows('quick')
                for r in (rows[1], rows[2]) if tier == 'quick' else rows:
                    out.append(dict(e, cer=cer, opts=r))
    return out


RESULTS = [False, True, 0, '', 'not stored', ()]


def check_call(c, a, call, r):
    kind, k = call
    c.check(k['credential'] is a.credential, 'another credential object is '
            'registered')
    if c.cfg['cer'] == 'get':
        c.check(kind == 'assertion', 'an assertion is registered as an ' +
                kind)
        ad = k['authenticator_data']
        user = a.user_arg if a.user_arg is not None else a.registered_user
        rp = a.rp_arg if a.rp_arg is not None else a.registered_rp
    else:
        c.check(kind == 'attestation', 'an attestation is registered as an ' +
                kind)
        ad = k['att'].auth_data
        user, rp = a.user, a.rp
        want, path = {'none': ('NONE', None), 'fido-u2f': ('BASIC', 1),
                      'android-key': ('BASIC', 1)}[a.fmt]
        c.check(k['att_type'] is c.M.types.AttestationType[want],
                'wrong attestation type reported')
        if path is None:
            c.check(k['trusted_path'] is None, 'unexpected trusted path')
        else:
            c.check(len(k['trusted_path']) == 1 and
                    c.cert_is(k['trusted_path'][0], a.att_cert),
                    'wrong trusted path reported')
        acd = ad.attested_credential_data
        c.check(c.And(c.eq(acd.credential_id, a.raw_id),
                      c.eq(acd.aaguid, a.aaguid),
                      c.eq(acd.credential_public_key.x, a.key.x)),
                'other attested credential data is reported')
    c.check(k['user'] is not None and c.And(
        c.eq(k['user'].id, user.id), c.eq(k['user'].name, user.name),
        c.eq(k['user'].display_name, user.display_name),
        c.eq(k['user'].icon, user.icon)),
        'another user is reported')
    c.check(k['rp'] is not None and c.And(
        c.eq(k['rp'].id, rp.id), c.eq(k['rp'].name, rp.name),
        c.eq(k['rp'].icon, rp.icon)),
        'another RP is reported')
    c.check(c.And(c.eq(ad.rp_id_hash, a.rp_id_hash),
                  ad.sign_count == be32(c, a.count),
                  ad.flags == a.ad[32]), 'other authenticator data is '
            'reported')


def run(c):
    mode = c.cfg['mode']
    get = c.cfg['cer'] == 'get'
    a = ceremony(c)
    E = c.M.errors
    if mode == 'free':
        if 'id_len' in c.cfg:
            a.raw_id = c.bytes('raw_id_n', c.cfg['id_len'])
        a.expected_challenge = c.bytes('expected', len(a.challenge))
        a.rp_id_hash = c.bytes('rp_id_hash', 32)
        f = c.bytes('flags', 1)
        at = getattr(a, 'at', False)
        ed = a.ext_map is not None
        c.assume((f[0] & (AT | ED)) == ((AT if at else 0) |
                                        (ED if ed else 0)))
        a.flags_fixed = f
        a.sign = False
        if get:
            a.registered_user = c.M.types.PublicKeyCredentialUserEntity(
                name='r', id=c.bytes('registered_id', len(a.user_id)),
                display_name='R', icon=a.icon)
            a.signature_count = c.int('stored', 0, 2 ** 32 - 1)
        a.build()
        r = a.go()
        side(c, r)
        calls = a.registrar.registered()
        if r[0] == 'err':
            c.check(len(calls) == 0, 'registered although the ceremony '
                    'failed with ' + type(r[1]).__name__)
            return
        c.check(len(calls) == 1, 'registered %d times' % len(calls))
        check_call(c, a, calls[0], r)
        cond = [c.eq(a.challenge, a.expected_challenge),
                c.eq(a.rp_id_hash, c.sha256(RP_ID.encode())),
                (f[0] & UP) != 0]
        if a.require_uv:
            cond.append((f[0] & UV) != 0)
        if get:
            cond += [a.signature_ok(),
                     c.eq(a.registered_user.id, a.user_arg.id)
                     if a.user_arg is not None else True,
                     c.eq(a.registered_user.id, a.user_handle)
                     if a.user_handle is not None else True,
                     c.Or(a.ignore_clone, a.count_value > a.signature_count,
                          c.And(a.count_value == 0,
                                a.signature_count == 0))]
        elif a.fmt == 'fido-u2f':
            cond.append(c.sig_valid(a.att_key.desc, 'sha256', a.att_data,
                                    a.att_sig))
        elif a.fmt == 'android-key':
            cond.append(c.sig_valid(a.key.desc, a.key.hash, a.att_data,
                                    a.att_sig))
        c.check(c.And(*cond), 'accepted although one of the checks fails')
        return
    if mode in ('result', 'raise'):
        i = c.cfg['i']
        if mode == 'result':
            a.registrar_result = RESULTS[i]
        else:
            exc = [ValueError('x'), KeyError('y'), E.ParserError('z')][i]

            def boom():
                raise exc
            a.on_register = boom
        a.build()
        if mode == 'raise':
            a.backend.registrar = a.registrar = make_registrar(
                c, getattr(a, 'data', None), on_register=boom)
        r = a.go()
        side(c, r)
        c.reach('registrar-' + ('refused' if mode == 'result' else 'raised'))
        c.check(is_error(c, r, 'RegistrationError'), 'the registrar refuses '
                'but the ceremony does not fail with RegistrationError')
        c.check(len(a.registrar.registered()) == 1, 'the registrar is not '
                'called exactly once')
        return
    if mode in ('get', 'get-none'):
        def getter(credential_id):
            if mode == 'get-none':
                return None
            raise [ValueError('x'), KeyError('y'),
                   E.ParserError('z')][c.cfg['i']]
        a.registrar = make_registrar(c, None, get=getter)
        a.build()
        r = a.go()
        side(c, r)
        c.reach('get-none' if mode == 'get-none' else 'get-raised')
        c.check(is_error(c, r, 'CredentialDataError' if mode == 'get-none'
                         else 'RegistrationError'),
                'missing credential data reported wrongly')
        c.check(len(a.registrar.calls) == 1 and
                c.eq(a.registrar.calls[0][1]['credential_id'], a.raw_id),
                'credential data is not looked up by the raw id')
        return
    if mode == 'twice':
        # The same credential is presented twice; only the expectations
        # change in between.
        a.expected_challenge = c.bytes('expected1', len(a.challenge))
        a.build()
        r1 = a.go()
        side(c, r1)
        first = c.eq(a.challenge, a.expected_challenge)
        a.expected_challenge = c.bytes('expected2', len(a.challenge))
        r2 = a.go()
        c.reach('twice')
        second = c.eq(a.challenge, a.expected_challenge)
        c.check(c.And(first if r1[0] == 'ok' else c.Not(first),
                      second if r2[0] == 'ok' else c.Not(second)),
                'a ceremony is judged by the challenge of another one')
        calls = a.registrar.registered()
        c.check(len(calls) == (r1[0] == 'ok') + (r2[0] == 'ok'),
                'not registered once per accepted ceremony')
        for x in calls:
            check_call(c, a, x, r1)
        return
    # the registered key and counter change between two assertions
    box = []
    a.registrar = make_registrar(c, None, get=lambda i: box[-1])
    a.build()
    box.append(a.data)
    r1 = a.go()
    side(c, r1)
    c.check(r1[0] == 'ok', 'honest assertion rejected')
    k2 = make_key(c, a.key.kind, fixed=1)
    stored = c.int('stored2', 0, 2 ** 32 - 1)
    box.append(c.M.registrars.CredentialData(
        credential_public_key=k2.model, signature_count=stored,
        user_entity=a.registered_user, rp_entity=a.registered_rp))
    r2 = a.go()
    c.reach('key-changed')
    cond = c.And(
        c.sig_valid(k2.desc, k2.hash, a.signed_data(), a.signature),
        c.Or(a.ignore_clone, a.count_value > stored,
             c.And(a.count_value == 0, stored == 0)))
    if r2[0] == 'ok':
        c.check(cond, 'the second assertion is not judged by the data the '
                'registrar returned for it')
    else:
        c.check(c.Not(cond), 'the second assertion is rejected without cause')
