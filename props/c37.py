"""Registered names and numbers mean exactly what the registries say."""
from .common import *

ID = 'C37'
REQUIRED = ('found', 'unknown', 'number', 'name', 'pairs', 'odd')
BOUNDS = ('every integer from -2^40 to 2^40 and every text of the lengths of '
          'the registered names, one shorter and one longer, and 0..3 '
          '(thorough: 0..20), any Unicode')
ASSUMPTIONS = ('only registered entries that the library lists are judged; '
               'entries it leaves out are outside',)

# IANA COSE registries, RFC 8152 and the WebAuthn specification
PAIRS = {
    'COSEAlgorithmIdentifier': {'ES256': ('ES256', -7),
                                'ES384': ('ES384', -35),
                                'ES512': ('ES512', -36),
                                'EDDSA': ('EdDSA', -8)},
    'COSEKeyType': {'OKP': ('OKP', 1), 'EC2': ('EC2', 2),
                    'SYMMETRIC': ('Symmetric', 4)},
    'COSEKeyOperation': {'SIGN': ('sign', 1), 'VERIFY': ('verify', 2),
                         'ENCRYPT': ('encrypt', 3), 'DECRYPT': ('decrypt', 4),
                         'WRAP_KEY': ('wrap key', 5),
                         'UNWRAP_KEY': ('unwrap key', 6),
                         'DERIVE_KEY': ('derive key', 7),
                         'DERIVE_BITS': ('derive bits', 8),
                         'MAC_CREATE': ('MAC create', 9),
                         'MAC_VERIFY': ('MAC verify', 10)},
    'EC2Curve': {'P_256': ('P-256', 1), 'P_384': ('P-384', 2),
                 'P_521': ('P-521', 3)},
    'OKPCurve': {'ED25519': ('Ed25519', 6), 'ED448': ('Ed448', 7)},
}
TEXTS = {
    'PublicKeyCredentialType': {'PUBLIC_KEY': 'public-key'},
    'AuthenticatorTransport': {'USB': 'usb', 'NFC': 'nfc', 'BLE': 'ble',
                               'INTERNAL': 'internal'},
    'AuthenticatorAttachment': {'PLATFORM': 'platform',
                                'CROSS_PLATFORM': 'cross-platform'},
    'AttestationConveyancePreference': {
        'NONE': 'none', 'INDIRECT': 'indirect', 'DIRECT': 'direct'},
    'UserVerificationRequirement': {
        'REQUIRED': 'required', 'PREFERRED': 'preferred',
        'DISCOURAGED': 'discouraged'},
    'CredentialMediationRequirement': {
        'SILENT': 'silent', 'OPTIONAL': 'optional', 'REQUIRED': 'required'},
    'TokenBindingStatus': {'SUPPORTED': 'supported', 'PRESENT': 'present'},
    'ExtensionIdentifier': {
        'APPID': 'appid', 'TX_AUTH_SIMPLE': 'txAuthSimple',
        'TX_AUTH_GENERIC': 'txAuthGeneric', 'AUTHN_SEL': 'authnSel',
        'EXTS': 'exts', 'UVI': 'uvi', 'LOC': 'loc', 'UVM': 'uvm',
        'BIOMETRIC_PERF_BOUNDS': 'biometricPerfBounds'},
    'AttestationStatementFormatIdentifier': {
        'PACKED': 'packed', 'TPM': 'tpm', 'ANDROID_KEY': 'android-key',
        'ANDROID_SAFETYNET': 'android-safetynet', 'FIDO_U2F': 'fido-u2f',
        'NONE': 'none'},
}
FLAGS = {'UP': 1, 'UV': 4, 'AT': 64, 'ED': 128}
KEYS = {'appid': 'appid', 'txAuthSimple': 'tx_auth_simple',
        'txAuthGeneric': 'tx_auth_generic', 'authnSel': 'authn_sel',
        'exts': 'exts', 'uvi': 'uvi', 'loc': 'loc', 'uvm': 'uvm',
        'biometricPerfBounds': 'biometric_perf_bounds'}


def lengths(names, tier):
    ns = set(range(4) if tier == 'quick' else range(21))
    for n in names:
        ns |= {len(n) - 1, len(n), len(n) + 1}
    return sorted(ns)


def configs(tier):
    out = []
    for e, d in PAIRS.items():
        out.append({'enum': e, 'mode': 'number'})
        out.append({'enum': e, 'mode': 'pairs'})
        out.append({'enum': e, 'mode': 'odd'})
        for n in lengths([x[0] for x in d.values()], tier):
            out.append({'enum': e, 'mode': 'name', 'n': n})
    for e, d in TEXTS.items():
        out.append({'enum': e, 'mode': 'pairs'})
        for n in lengths(d.values(), tier):
            out.append({'enum': e, 'mode': 'name', 'n': n})
    out.append({'enum': 'AuthenticatorDataFlag', 'mode': 'pairs'})
    out.append({'enum': 'ExtensionIdentifier', 'mode': 'keys'})
    return out


def run(c):
    e, mode = c.cfg['enum'], c.cfg['mode']
    T = c.M.types
    E = getattr(T, e)
    if mode == 'keys':
        for k, v in KEYS.items():
            r = c.call(lambda: E(k).key)
            c.check(r == ('ok', v), 'wrong attribute of extension ' + k)
        c.reach('pairs')
        return
    if mode == 'pairs':
        if e == 'AuthenticatorDataFlag':
            for k, v in FLAGS.items():
                c.check(E[k].value == v, 'wrong flag ' + k)
        elif e in TEXTS:
            for k, v in TEXTS[e].items():
                c.check(c.eq(E[k].value, v), 'wrong text of %s.%s' % (e, k))
        else:
            for k, (s, n) in PAIRS[e].items():
                c.check(c.eq(E.Name[k].value, s), 'wrong name ' + k)
                c.check(c.eq(E.Value[k].value, n), 'wrong number ' + k)
            for m in E.Value:
                c.check(m.name in E.Name.__members__,
                        'number without a name: ' + m.name)
            for m in E.Name:
                c.check(m.name in E.Value.__members__,
                        'name without a number: ' + m.name)
        c.reach('pairs')
        return
    if mode == 'odd':
        i = c.choice('odd', range(6))
        v = (None, b'ES256', 1.0, True, ['ES256'], ())[i]
        r = c.call(E, v)
        note(c, r)
        c.check(r[0] == 'err', 'a member for something that is neither a '
                'number nor a name')
        c.reach('odd')
        return
    if mode == 'number':
        v = c.int('v', -1 << 40, 1 << 40)
        want = {n: E.Value[k] for k, (s, n) in PAIRS[e].items()}
        other = E.Value
    else:
        v = c.text('v', c.cfg['n'])
        if e in PAIRS:
            want = {s: E.Name[k] for k, (s, n) in PAIRS[e].items()}
            other = E.Name
        else:
            want = {s: E[k] for k, s in TEXTS[e].items()}
            other = E
    r = c.call(E, v)
    note(c, r)
    c.reach(mode)
    if r[0] == 'ok':
        c.reach('found')
        c.check(any(r[1] is m for m in other), 'not a member')
        for w, m in want.items():
            if r[1] is m:
                c.check(v == w, 'another %s is taken for %r' % (mode, w))
        c.check(c.eq(r[1].value, v), 'a member of another value')
    else:
        c.reach('unknown')
        c.check(isinstance(r[1], (ValueError, KeyError)),
                'unknown %s: %s' % (mode, type(r[1]).__name__))
        c.check(c.Not(c.one_of(v, list(want))), 'a registered %s is refused' %
                mode)
