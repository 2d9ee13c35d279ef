"""From options to authentication: a credential registered by one ceremony
authenticates in the next one, and nothing else does."""
import base64

from symex import models

from .common import *

ID = 'C39'
REQUIRED = ('registered', 'authenticated', 'refused-signature',
            'refused-counter', 'refused-id', 'again')
BOUNDS = ('one registration and two authentications over JSON messages; '
          'challenges of 16 (also 1 and 33) bytes, credential ids of 8 (also '
          '1 and 64) bytes; free signatures, counters, ids and user handles')
ASSUMPTIONS = ('the browser decodes the base64 of the options and sends '
               'standard base64, as the README describes',
               'the application stores what the registrar is told: key, '
               'counter, user, relying party, by credential id')


def configs(tier):
    out = []
    rows = Registration.rows('quick', without=('kind',))
    kinds = list(KINDS)
    for i, r in enumerate(rows if tier == 'quick' else
                          Registration.rows('thorough', without=('kind',))):
        for j, what in enumerate(('signature', 'counter', 'id', 'honest')):
            k = kinds[(i + j) % len(kinds)]
            if r['fmt'] == 'fido-u2f':
                k = 'ES256'
            elif k == 'ES512' and r['fmt'] == 'android-key':
                k = 'ES384'
            out.append({'what': what, 'kind': k, 'opts': dict(r, kind=k),
                        'n': (16, 1, 33)[(i + j) % 3],
                        'idn': (8, 64, 1)[(i + 2 * j) % 3],
                        'handle': bool((i + j) % 2)})
    for k in kinds:
        out.append({'what': 'signature', 'kind': k, 'n': 16, 'idn': 8,
                    'handle': True, 'opts': {'kind': k}})
    return out


def browser_challenge(c, options):
    """What a browser makes of the challenge in the options."""
    text = options['publicKey']['challenge']
    c.check(text.__class__ is str, 'the challenge is not a text')
    if c.symbolic:
        return models.a2b_base64(text)
    return base64.b64decode(text)


def transport(c, a):
    """The credential as the page sends it, parsed by the library."""
    x = a.response
    resp = [('clientDataJSON', True, c.std64(x.client_data_JSON))]
    if a.TYPE == CREATE:
        resp.append(('attestationObject', True,
                     c.std64(x.attestation_object)))
    else:
        resp += [('authenticatorData', True, c.std64(x.authenticator_data)),
                 ('signature', True, c.std64(x.signature))]
        if x.user_handle is not None:
            resp.append(('userHandle', True, c.std64(x.user_handle)))
    msg = c.dict([('id', True, 'cred'), ('type', True, 'public-key'),
                  ('rawId', True, c.std64(a.raw_id)),
                  ('response', True, lambda: c.dict(resp))])
    r = c.call(c.M.parsers.parse_public_key_credential, msg)
    c.check(r[0] == 'ok', 'the message is not parsed')
    a.credential = r[1]


def run(c):
    cfg = c.cfg
    T, M = c.M.types, c.M
    what, n = cfg['what'], cfg['n']
    rp = T.PublicKeyCredentialRpEntity(name='RP', id=RP_ID)
    user = T.PublicKeyCredentialUserEntity(
        name='user', id=c.bytes('user_id', 8), display_name='User')
    stored = {}
    # ---- registration
    challenge1 = c.bytes('challenge1', n)
    builder = M.builders.CredentialCreationOptionsBuilder(
        rp=rp, pub_key_cred_params=[T.PublicKeyCredentialParameters(
            type=T.PublicKeyCredentialType.PUBLIC_KEY, alg=x)
            for x in T.COSEAlgorithmIdentifier.Value])
    r = c.call(builder.build, user=user, challenge=challenge1)
    c.check(r[0] == 'ok', 'no creation options')
    r = c.call(M.converters.jsonify, r[1])
    c.check(r[0] == 'ok', 'the creation options have no JSON')
    p = c.apart('reg.', {})
    a = Registration(p, dict(cfg['opts'], raw_id_len=cfg['idn']))
    a.challenge = browser_challenge(c, r[1])
    a.expected_challenge = challenge1
    a.rp, a.user = rp, user
    a.build()
    transport(c, a)
    r = a.go()
    c.check(r[0] == 'ok', 'an honest registration is refused')
    calls = a.registrar.registered()
    c.check(len(calls) == 1, 'registered %d times' % len(calls))
    k = calls[0][1]
    ad = k['att'].auth_data
    acd = ad.attested_credential_data
    stored['id'] = acd.credential_id
    stored['data'] = M.registrars.CredentialData(
        credential_public_key=acd.credential_public_key,
        signature_count=ad.sign_count, user_entity=k['user'],
        rp_entity=k['rp'])
    c.reach('registered')
    # ---- authentications
    for i in (1, 2):
        last = i == 2
        asked = []

        def get(cid):
            asked.append(cid)
            return stored['data'] if c.eq(cid, stored['id']) else None
        challenge = c.bytes('challenge%d' % (i + 1), n)
        b = M.builders.CredentialRequestOptionsBuilder(rp_id=RP_ID)
        r = c.call(b.build, challenge=challenge)
        c.check(r[0] == 'ok', 'no request options')
        r = c.call(M.converters.jsonify, r[1])
        c.check(r[0] == 'ok', 'the request options have no JSON')
        p = c.apart('get%d.' % i, {})
        s = Assertion(p, {'kind': cfg['kind'], 'raw_id_len': cfg['idn'],
                          'handle': 'given' if cfg['handle'] else 'none'})
        s.challenge = browser_challenge(c, r[1])
        s.expected_challenge = challenge
        s.key = a.key
        s.rp_arg, s.user_arg = rp, user
        s.user_handle = user.id if cfg['handle'] else None
        s.raw_id = stored['id']
        s.registrar = make_registrar(c, get=get)
        if what != 'signature' or not last:
            s.sign = True
        else:
            s.sign = False
        other = last and what == 'id'
        if other:
            s.raw_id = c.bytes('other id', cfg['idn'])
        s.build()
        known = stored['data'].signature_count
        fresh = c.Or(s.count_value > known,
                     c.And(s.count_value == 0, known == 0))
        if not (last and what == 'counter'):
            c.assume(fresh)
        transport(c, s)
        r = s.go()
        right = True
        if last and what == 'signature':
            right = s.signature_ok()
        elif last and what == 'counter':
            right = fresh
        elif other:
            right = c.eq(s.raw_id, stored['id'])
        if r[0] == 'ok':
            c.check(right, 'authenticated without the right ' + what)
            calls = s.registrar.registered()
            c.check(len(calls) == 1, 'not reported to the registrar once')
            k = calls[0][1]
            c.check(c.And(k['authenticator_data'].sign_count ==
                          s.count_value, c.eq(k['user'].id, user.id),
                          c.eq(k['credential'].raw_id, stored['id'])),
                    'something else is reported to the registrar')
            stored['data'] = stored['data']._replace(
                signature_count=k['authenticator_data'].sign_count)
            c.reach('again' if last else 'authenticated')
        else:
            c.check(last, 'the first honest authentication is refused')
            c.check(c.Not(right), 'an authentication with the right %s is '
                    'refused' % what)
            c.check(not s.registrar.registered(), 'reported although refused')
            c.reach('refused-' + what)
            return
