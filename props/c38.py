"""Data model objects hold exactly what they are given."""
from symex.watch import same

from .common import *

ID = 'C38'
REQUIRED = ('all', 'none', 'one', 'without-one', 'missing', 'empty')
BOUNDS = ('every class of the data model with all, none, each one and all but '
          'one of its optional members; symbolic texts and byte strings of 3 '
          'or no characters, integers of 0..2^40, flags, lists of two')
ASSUMPTIONS = ('values are of the documented types',)

S, B, I, F, BOOL = 's', 'b', 'i', 'f', 'bool'
ALG, OPS = 'e:COSEAlgorithmIdentifier.Value', 'l:e:COSEKeyOperation.Value'
KEY = [('kty', 'e:COSEKeyType.Value'), ('kid', B, None), ('alg', ALG, None),
       ('key_ops', OPS, None), ('base_IV', B, None)]
EXTS_IN = [('appid', S, None), ('tx_auth_simple', S, None),
           ('tx_auth_generic', 'o:TxAuthGenericArg', None),
           ('authn_sel', 'l:b', None), ('exts', BOOL, None),
           ('uvi', BOOL, None), ('loc', BOOL, None), ('uvm', BOOL, None),
           ('biometric_perf_bounds', 'o:AuthenticatorBiometricPerfBounds',
            None)]
EXTS_OUT = [('appid', BOOL, None), ('tx_auth_simple', S, None),
            ('tx_auth_generic', B, None), ('authn_sel', BOOL, None),
            ('exts', 'l:s', None), ('uvi', B, None),
            ('loc', 'o:Coordinates', None), ('uvm', 'l:l:i', None),
            ('biometric_perf_bounds', BOOL, None)]
TPM = [('alg', ALG), ('sig', B), ('ver', S), ('cert_info', B),
       ('pub_area', B)]
# class: members (name, type[, default]); a default makes it optional
CLASSES = {
    'PublicKeyCredentialEntity': [('name', S), ('icon', S, None)],
    'PublicKeyCredentialRpEntity': [('name', S), ('icon', S, None),
                                    ('id', S)],
    'PublicKeyCredentialUserEntity': [('name', S), ('icon', S, None),
                                      ('id', B), ('display_name', S)],
    'PublicKeyCredentialParameters': [('type', 'e:PublicKeyCredentialType'),
                                      ('alg', ALG)],
    'PublicKeyCredentialDescriptor': [('type', 'e:PublicKeyCredentialType'),
                                      ('id', B),
                                      ('transports',
                                       'l:e:AuthenticatorTransport', None)],
    'TxAuthGenericArg': [('content_type', S), ('content', B)],
    'Coordinates': [('latitude', F), ('longitude', F),
                    ('altitude', F, None), ('accuracy', F),
                    ('altitude_accuracy', F, None), ('heading', F, None),
                    ('speed', F, None)],
    'AuthenticatorBiometricPerfBounds': [('FAR', F), ('FRR', F)],
    'AuthenticationExtensionsClientInputs': EXTS_IN,
    'AuthenticationExtensionsClientOutputs': EXTS_OUT,
    'AuthenticatorSelectionCriteria': [
        ('authenticator_attachment', 'e:AuthenticatorAttachment', None),
        ('require_resident_key', BOOL, False),
        ('user_verification', 'e:UserVerificationRequirement',
         'e:UserVerificationRequirement.PREFERRED')],
    'PublicKeyCredentialCreationOptions': [
        ('rp', 'o:PublicKeyCredentialRpEntity'),
        ('user', 'o:PublicKeyCredentialUserEntity'), ('challenge', B),
        ('pub_key_cred_params', 'l:o:PublicKeyCredentialParameters'),
        ('timeout', I, None),
        ('authenticator_selection', 'o:AuthenticatorSelectionCriteria',
         None),
        ('extensions', 'o:AuthenticationExtensionsClientInputs', None),
        ('attestation', 'e:AttestationConveyancePreference',
         'e:AttestationConveyancePreference.NONE'),
        ('exclude_credentials', 'l:o:PublicKeyCredentialDescriptor', None)],
    'PublicKeyCredentialRequestOptions': [
        ('challenge', B), ('timeout', I, None), ('rp_id', S, None),
        ('extensions', 'o:AuthenticationExtensionsClientInputs', None),
        ('allow_credentials', 'l:o:PublicKeyCredentialDescriptor', None),
        ('user_verification', 'e:UserVerificationRequirement',
         'e:UserVerificationRequirement.PREFERRED')],
    'CredentialCreationOptions': [
        ('public_key', 'o:PublicKeyCredentialCreationOptions')],
    'CredentialRequestOptions': [
        ('mediation', 'e:CredentialMediationRequirement',
         'e:CredentialMediationRequirement.OPTIONAL'),
        ('public_key', 'o:PublicKeyCredentialRequestOptions')],
    'AuthenticatorResponse': [('client_data_JSON', B)],
    'Credential': [('id', S), ('type', S)],
    'AttestationStatement': [('alg', ALG, None), ('sig', B, None)],
    'AuthenticatorAttestationResponse': [('client_data_JSON', B),
                                         ('attestation_object', B)],
    'AuthenticatorAssertionResponse': [('client_data_JSON', B),
                                       ('authenticator_data', B),
                                       ('signature', B),
                                       ('user_handle', B, None)],
    'PublicKeyCredential': [('id', S), ('type', S), ('raw_id', B),
                            ('response',
                             'o:AuthenticatorAttestationResponse')],
    'TokenBinding': [('status', 'e:TokenBindingStatus'), ('id', S, None)],
    'CollectedClientData': [('type', S), ('challenge', S), ('origin', S),
                            ('token_binding', 'o:TokenBinding', None)],
    'CredentialPublicKey': KEY,
    'EC2CredentialPublicKey': KEY + [('x', B), ('y', B),
                                     ('crv', 'e:EC2Curve.Value')],
    'OKPCredentialPublicKey': KEY + [('crv', 'e:OKPCurve.Value'), ('x', B)],
    'AttestedCredentialData': [('aaguid', B), ('credential_id_length', I),
                               ('credential_id', B),
                               ('credential_public_key',
                                'o:OKPCredentialPublicKey', None)],
    'AuthenticatorData': [('rp_id_hash', B), ('flags', I), ('sign_count', I),
                          ('attested_credential_data',
                           'o:AttestedCredentialData', None),
                          ('extensions',
                           'o:AuthenticationExtensionsClientOutputs', None)],
    'PackedAttestationStatement': [('alg', ALG), ('sig', B)],
    'PackedX509AttestationStatement': [('alg', ALG), ('sig', B),
                                       ('x5c', 'l:b')],
    'PackedECDAAAttestationStatement': [('alg', ALG), ('sig', B),
                                        ('ecdaa_key_id', B)],
    'TPMAttestationStatement': TPM,
    'TPMX509AttestationStatement': TPM + [('x5c', 'l:b')],
    'TPMECDAAAttestationStatement': TPM + [('ecdaa_key_id', B)],
    'AndroidKeyAttestationStatement': [('alg', ALG), ('sig', B),
                                       ('x5c', 'l:b')],
    'AndroidSafetyNetAttestationStatement': [('ver', S), ('response', B)],
    'FIDOU2FAttestationStatement': [('sig', B), ('x5c', 'l:b')],
    'AttestationObject': [('auth_data', 'o:AuthenticatorData'),
                          ('fmt', 'e:AttestationStatementFormatIdentifier'),
                          ('att_stmt', 'o:FIDOU2FAttestationStatement')],
    'registrars.CredentialData': [
        ('credential_public_key', 'o:OKPCredentialPublicKey'),
        ('signature_count', I),
        ('user_entity', 'o:PublicKeyCredentialUserEntity'),
        ('rp_entity', 'o:PublicKeyCredentialRpEntity', None)],
    'Origin': [('scheme', S), ('hostname', S), ('port', I)],
}


def configs(tier):
    out = []
    for cls, ms in CLASSES.items():
        opt = [m[0] for m in ms if len(m) == 3]
        sets = [('all', opt), ('none', [])]
        if len(opt) > 1:
            sets += [('one', [o]) for o in opt]
            sets += [('without-one', [p for p in opt if p != o])
                     for o in opt]
        for what, given in sets:
            out.append({'cls': cls, 'what': what, 'given': given})
        out.append({'cls': cls, 'what': 'empty', 'given': opt})
        for m in ms:
            if len(m) == 2:
                out.append({'cls': cls, 'what': 'missing', 'given': opt,
                            'without': m[0]})
    return out


def klass(c, name):
    o = c.M.registrars if name.startswith('registrars.') else c.M.types
    return getattr(o, name.split('.')[-1])


def members(c, e):
    o = c.M.types
    for p in e.split('.'):
        o = getattr(o, p)
    return o


def value(c, t, name, empty, depth=0):
    if t == S:
        return c.text(name, 0 if empty else 3)
    if t == B:
        return c.bytes(name, 0 if empty else 3)
    if t == I:
        return 0 if empty else c.int(name, 0, 1 << 40)
    if t == F:
        return 0.0 if empty else 1.25 + len(name)
    if t == BOOL:
        return False if empty else c.bool(name)
    if t.startswith('e:'):
        ms = list(members(c, t[2:]))
        return ms[len(name) % len(ms)]
    if t.startswith('l:'):
        return [] if empty else [value(c, t[2:], '%s.%d' % (name, i), False,
                                       depth) for i in range(2)]
    cls = t[2:]
    return klass(c, cls)(**{
        m[0]: value(c, m[1], name + '.' + m[0], empty, depth + 1)
        for m in CLASSES[cls] if len(m) == 2 or depth == 0})


def kept(c, got, want):
    """The same object or an equal copy (a list may become a tuple)."""
    if isinstance(want, list) and isinstance(got, (list, tuple)):
        return len(got) == len(want) and c.And(
            *[kept(c, x, y) for x, y in zip(got, want)])
    return same(c, got, want)


def run(c):
    cfg = c.cfg
    cls, what = cfg['cls'], cfg['what']
    kw, expect = {}, {}
    for m in CLASSES[cls]:
        if m[0] == cfg.get('without'):
            continue
        if len(m) == 2 or m[0] in cfg['given']:
            kw[m[0]] = value(c, m[1], m[0], what == 'empty')
            expect[m[0]] = kw[m[0]]
        else:
            d = m[2]
            if type(d) is str:
                d = members(c, d[2:])
            expect[m[0]] = d
    r = c.call(klass(c, cls), **kw)
    note(c, r)
    c.reach(what)
    if what == 'missing':
        c.check(r[0] == 'err' and isinstance(r[1], TypeError),
                '%s without %s' % (cls, cfg['without']))
        return
    c.check(r[0] == 'ok', '%s cannot be made' % cls)
    for k, v in expect.items():
        c.check(kept(c, getattr(r[1], k), v), '%s.%s is not what was given'
                % (cls, k) if k in kw else 'wrong default of %s.%s' % (cls, k))
    # a second object does not affect the first
    r2 = c.call(klass(c, cls), **{
        m[0]: value(c, m[1], 'other.' + m[0], False)
        for m in CLASSES[cls] if m[0] in kw or what == 'none'})
    c.check(r2[0] == 'ok', 'a second %s cannot be made' % cls)
    for k, v in expect.items():
        c.check(kept(c, getattr(r[1], k), v), '%s.%s changes when another '
                'object is made' % (cls, k))
