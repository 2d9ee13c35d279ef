"""jsonify: every value arrives in the JSON that WebAuthn's dictionaries call
for, nothing is added, absent members stay absent."""
import base64

from .common import *

ID = 'C30'
REQUIRED = ('creation', 'request', 'tree', 'enum', 'bad-key', 'unsupported',
            'objects', 'empties')
BOUNDS = ('creation and request options with every optional member present '
          'or absent (three at a time symbolically, the others by '
          'configuration) and up to 2 elements in every sequence; trees of '
          'depth up to 4; bytes of up to 6 (thorough: 33), texts of up to 5 '
          'characters of any code point')
ASSUMPTIONS = ()


PLACES = ('top', 'list', 'tuple', 'dict', 'object', 'list in dict',
          'dict in list', 'object in list', 'dict in object', 'deep')
EMPTY = [[], (), {}, '', b'', 0, 0.0, False, None, [None], [[]], {'a': None},
         1, True, 'a', b'a', -1, 1 << 70, .5, '\x00', [0], [{}]]


def configs(tier):
    deep = tier == 'thorough'
    out = []
    for cc in (True, False):
        for cls in ('creation', 'request'):
            for others in ('none', 'all'):
                for g in range(4):
                    out.append({'mode': cls, 'case': cc, 'group': g,
                                'others': others})
        for n in (0, 1, 2, 3, 4, 5, 6) + ((7, 8, 9, 32, 33) if deep else ()):
            out.append({'mode': 'tree', 'case': cc, 'n': n})
        out.append({'mode': 'keys', 'case': cc})
        out.append({'mode': 'enum', 'case': cc})
        out.append({'mode': 'bad', 'case': cc})
        out.append({'mode': 'objects', 'case': cc})
        for where in PLACES:
            out.append({'mode': 'empties', 'case': cc, 'where': where})
    return out


def b64(c, v):
    return c.std64(v)


def same(c, got, want):
    """JSON equality with types; want may hold symbolic values."""
    if want.__class__ is dict:
        return got.__class__ is dict and set(got) == set(want) and \
            c.And(*[same(c, got[k], want[k]) for k in want])
    if want.__class__ is list:
        return got.__class__ is list and len(got) == len(want) and \
            c.And(*[same(c, x, y) for x, y in zip(got, want)])
    if want is None:
        return got is None
    return c.eq(got, want)


class Opt:
    """Presence of optional members."""

    def __init__(self, c, names):
        g, n = c.cfg['group'], len(names)
        size = (n + 3) // 4
        self.sym = set(names[g * size:(g + 1) * size])
        self.c = c

    def __call__(self, name):
        if name in self.sym:
            return bool(self.c.bool('has.' + name))
        return self.c.cfg['others'] == 'all'


def key_names(camel):
    """JSON name: camel case or as in Python."""
    return (lambda py, js: js) if camel else (lambda py, js: py)


def extensions(c, o, N):
    T = c.M.types
    kw, want = {}, {}

    def put(py, js, v, j):
        if o('ext.' + py):
            kw[py] = v
            want[N(py, js)] = j
    t = c.text('appid', 2)
    put('appid', 'appid', t, t)
    t = c.text('tx', 1)
    put('tx_auth_simple', 'txAuthSimple', t, t)
    b, s = c.bytes('txg', 4), c.text('ct', 2)
    put('tx_auth_generic', 'txAuthGeneric',
        T.TxAuthGenericArg(content_type=s, content=b),
        {N('content_type', 'contentType'): s, 'content': b64(c, b)})
    a = [c.bytes('aag0', 3), c.bytes('aag1', 2)]
    put('authn_sel', 'authnSel', a, [b64(c, x) for x in a])
    put('exts', 'exts', True, True)
    put('uvi', 'uvi', False, False)
    put('loc', 'loc', True, True)
    put('uvm', 'uvm', False, False)
    put('biometric_perf_bounds', 'biometricPerfBounds',
        T.AuthenticatorBiometricPerfBounds(FAR=.25, FRR=.5),
        {'FAR': .25, 'FRR': .5})
    return T.AuthenticationExtensionsClientInputs(**kw), want


def descriptors(c, o, name, N):
    T = c.M.types
    out, want = [], []
    A = T.AuthenticatorTransport
    for i in range(2):
        b = c.bytes('%s%d' % (name, i), 3 + i)
        d = {'type': 'public-key', 'id': b64(c, b)}
        tr = None
        if o('%s.transports%d' % (name, i)):
            tr = [A.USB, A.NFC, A.BLE, A.INTERNAL]
            d['transports'] = ['usb', 'nfc', 'ble', 'internal']
        out.append(T.PublicKeyCredentialDescriptor(
            type=T.PublicKeyCredentialType.PUBLIC_KEY, id=b, transports=tr))
        want.append(d)
    return out, want


EXT_NAMES = ['ext.' + x for x in (
    'appid', 'tx_auth_simple', 'tx_auth_generic', 'authn_sel', 'exts', 'uvi',
    'loc', 'uvm', 'biometric_perf_bounds')]


def creation(c, N, camel):
    T = c.M.types
    o = Opt(c, ['rp.icon', 'user.icon', 'timeout', 'exclude', 'exclude.'
                'transports0', 'exclude.transports1', 'selection',
                'sel.attachment', 'extensions'] + EXT_NAMES)
    rid, rn = c.text('rp.id', 3), c.text('rp.name', 2)
    uid, un, ud = c.bytes('user.id', 5), c.text('u.n', 1), c.text('u.d', 2)
    ch = c.bytes('challenge', 6)
    icon = c.text('icon', 2)
    rp = T.PublicKeyCredentialRpEntity(
        name=rn, id=rid, icon=icon if o('rp.icon') else None)
    jrp = {'id': rid, 'name': rn}
    if o('rp.icon'):
        jrp['icon'] = icon
    user = T.PublicKeyCredentialUserEntity(
        name=un, id=uid, display_name=ud,
        icon=icon if o('user.icon') else None)
    juser = {'id': b64(c, uid), 'name': un,
             N('display_name', 'displayName'): ud}
    if o('user.icon'):
        juser['icon'] = icon
    A = T.COSEAlgorithmIdentifier
    P = T.PublicKeyCredentialType.PUBLIC_KEY
    params = [T.PublicKeyCredentialParameters(type=P, alg=A.Value.ES256),
              T.PublicKeyCredentialParameters(type=P, alg=A.Name.EDDSA)]
    kw = {'rp': rp, 'user': user, 'challenge': ch,
          'pub_key_cred_params': params}
    att = c.choice('attestation', ['NONE', 'INDIRECT', 'DIRECT'])
    kw['attestation'] = getattr(T.AttestationConveyancePreference, att)
    want = {'rp': jrp, 'user': juser, 'challenge': b64(c, ch),
            N('pub_key_cred_params', 'pubKeyCredParams'): [
                {'type': 'public-key', 'alg': -7},
                {'type': 'public-key', 'alg': 'EdDSA'}],
            'attestation': att.lower()}
    if o('timeout'):
        kw['timeout'] = want['timeout'] = c.int('timeout', 0, 1 << 32)
    if o('exclude'):
        kw['exclude_credentials'], want[
            N('exclude_credentials', 'excludeCredentials')] = \
            descriptors(c, o, 'exclude', N)
    if o('selection'):
        s, w = {}, {N('user_verification', 'userVerification'): 'preferred',
                    N('require_resident_key', 'requireResidentKey'): False}
        if o('sel.attachment'):
            s['authenticator_attachment'] = \
                T.AuthenticatorAttachment.CROSS_PLATFORM
            w[N('authenticator_attachment', 'authenticatorAttachment')] = \
                'cross-platform'
        kw['authenticator_selection'] = T.AuthenticatorSelectionCriteria(**s)
        want[N('authenticator_selection', 'authenticatorSelection')] = w
    if o('extensions'):
        kw['extensions'], want['extensions'] = extensions(c, o, N)
    x = T.CredentialCreationOptions(
        public_key=T.PublicKeyCredentialCreationOptions(**kw))
    return x, {N('public_key', 'publicKey'): want}


def request(c, N, camel):
    T = c.M.types
    o = Opt(c, ['timeout', 'rp_id', 'allow', 'allow.transports0',
                'allow.transports1', 'extensions'] + EXT_NAMES)
    ch = c.bytes('challenge', 5)
    kw = {'challenge': ch}
    want = {'challenge': b64(c, ch)}
    if o('timeout'):
        kw['timeout'] = want['timeout'] = c.int('timeout', 0, 1 << 32)
    if o('rp_id'):
        kw['rp_id'] = want[N('rp_id', 'rpId')] = c.text('rp_id', 4)
    if o('allow'):
        kw['allow_credentials'], want[
            N('allow_credentials', 'allowCredentials')] = \
            descriptors(c, o, 'allow', N)
    if o('extensions'):
        kw['extensions'], want['extensions'] = extensions(c, o, N)
    uv = c.choice('uv', [None, 'REQUIRED', 'PREFERRED', 'DISCOURAGED'])
    kw['user_verification'] = uv and getattr(
        T.UserVerificationRequirement, uv)
    if uv:
        want[N('user_verification', 'userVerification')] = uv.lower()
    m = c.choice('mediation', ['SILENT', 'OPTIONAL', 'REQUIRED'])
    x = T.CredentialRequestOptions(
        mediation=getattr(T.CredentialMediationRequirement, m),
        public_key=T.PublicKeyCredentialRequestOptions(**kw))
    return x, {N('public_key', 'publicKey'): want, 'mediation': m.lower()}


def tree(c, N, camel):
    n = c.cfg['n']
    b, t = c.bytes('b', n), c.text('t', n)
    i, f = c.int('i', -(1 << 40), 1 << 40), c.bool('f')
    jb = b64(c, b)
    e = c.M.types.OKPCurve.Value.ED448
    x = {'a_b': [b, t, None, (i, f), {'c_d_e': (b,), 'gone': None}],
         'plain': i, 'alreadyCamel': f, 'x_1': {'y_z': {'u_v': [[b], [], {}]}},
         'none': None, 'list': [None, [None]], 'enum': e, 'float': 1.5,
         'zero': 0, 'empty': '', 'no': False, 'nil': b''}
    want = {N('a_b', 'aB'): [jb, t, None, [i, f],
                             {N('c_d_e', 'cDE'): [jb]}],
            'plain': i, 'alreadyCamel': f,
            N('x_1', 'x1'): {N('y_z', 'yZ'): {N('u_v', 'uV'): [[jb], [],
                                                               {}]}},
            'list': [None, [None]], 'enum': 7, 'float': 1.5, 'zero': 0,
            'empty': '', 'no': False, 'nil': ''}
    return x, want


def plain_json(v):
    if isinstance(v, dict):
        return {k: plain_json(x) for k, x in v.items() if x is not None}
    if isinstance(v, (list, tuple)):
        return [plain_json(x) for x in v]
    if isinstance(v, bytes):
        return base64.b64encode(v).decode()
    return v


class Plain:
    def __init__(self, **kw):
        self.__dict__.update(kw)


def run(c):
    cfg = c.cfg
    mode, camel = cfg['mode'], cfg['case']
    N = key_names(camel)
    jsonify = c.M.converters.jsonify
    T = c.M.types

    def go(x):
        if camel and c.choice('default', [True, False]):
            r = c.call(jsonify, x)
        else:
            r = c.call(jsonify, x, camel)
        note(c, r)
        return r
    if mode in ('creation', 'request', 'tree'):
        c.reach(mode)
        x, want = globals()[mode](c, N, camel)
        r = go(x)
        c.check(r[0] == 'ok', 'no JSON for ' + mode)
        c.check(same(c, r[1], want), 'wrong JSON for ' + mode)
        return
    if mode == 'enum':
        c.reach('enum')
        members = []
        for cls in ('PublicKeyCredentialType', 'AuthenticatorTransport',
                    'AuthenticatorAttachment', 'TokenBindingStatus',
                    'AttestationConveyancePreference', 'ExtensionIdentifier',
                    'UserVerificationRequirement', 'AttestationType',
                    'CredentialMediationRequirement', 'AuthenticatorDataFlag',
                    'AttestationStatementFormatIdentifier'):
            members += list(getattr(T, cls))
        for cls in ('COSEAlgorithmIdentifier', 'COSEKeyType', 'EC2Curve',
                    'OKPCurve', 'COSEKeyOperation'):
            members += list(getattr(T, cls).Name) + \
                list(getattr(T, cls).Value)
        e = c.choice('member', members)
        r = go(e)
        c.check(r[0] == 'ok' and c.eq(r[1], e.value), 'an enum is not its '
                'value')
        return
    if mode == 'empties':
        i = c.choice('i', list(range(len(EMPTY))))
        v = EMPTY[i]
        j = plain_json(v)
        place, drop = cfg['where'], v is None
        k = N('a_b', 'aB')
        in_dict = {} if drop else {k: j}
        x, want = {
            'top': (v, j), 'list': ([1, v, 2], [1, j, 2]),
            'tuple': ((v,), [j]), 'dict': ({'a_b': v}, in_dict),
            'object': (Plain(a_b=v), in_dict),
            'list in dict': ({'a_b': [v, v]}, {k: [j, j]}),
            'dict in list': ([{'a_b': v}], [in_dict]),
            'object in list': ([Plain(a_b=v), 1], [in_dict, 1]),
            'dict in object': (Plain(x={'a_b': v}, y=v), dict(
                {'x': in_dict}, **({} if drop else {'y': j}))),
            'deep': ([[{'a_b': ({'a_b': v},)}]], [[{k: [in_dict]}]]),
        }[place]
        r = go(x)
        c.reach('empties')
        c.check(r[0] == 'ok' and same(c, r[1], want) and
                type(r[1]) is type(want), 'wrong JSON for an ordinary value')
        return
    if mode == 'keys':
        k = c.choice('key', [1, None, b'a', True, 1.5, ('a',)])
        where = c.choice('where', [0, 1, 2])
        x = {k: c.int('v', 0, 3)}
        x = x if where == 0 else [1, x] if where == 1 else \
            Plain(a=1, b={'c': x})
        r = go(x)
        c.reach('bad-key')
        c.check(is_error(c, r, 'JSONConversionError'), 'a key that is not '
                'text is not a JSONConversionError')
        return
    if mode == 'bad':
        v = c.choice('v', [{1}, frozenset(), 1j, object(), bytearray(b'a'),
                           range(2), memoryview(b'a')])
        where = c.choice('where', [0, 1, 2])
        x = v if where == 0 else [v] if where == 1 else {'a': (1, v)}
        r = go(x)
        c.reach('unsupported')
        c.check(is_error(c, r, 'UnimplementedError'), 'an unsupported value '
                'is not an UnimplementedError')
        return
    # objects of other classes, and of the key classes
    c.reach('objects')
    b = c.bytes('b', 4)
    t = c.text('t', 2)
    x = Plain(some_name=b, other=None, inner_thing=Plain(x_y=t))
    r = go(x)
    c.check(r[0] == 'ok' and same(c, r[1], {
        N('some_name', 'someName'): b64(c, b),
        N('inner_thing', 'innerThing'): {N('x_y', 'xY'): t}}),
        'wrong JSON for a plain object')
    key = make_key(c, 'ES256')
    key.model.kid = b
    r = go(key.model)
    c.check(r[0] == 'ok' and same(c, r[1], {
        'kty': 2, 'alg': -7, 'crv': 1, 'x': b64(c, key.x),
        'y': b64(c, key.y), 'kid': b64(c, b)}), 'wrong JSON for a key')
    d = T.CollectedClientData(
        type=t, challenge='c', origin='o', token_binding=T.TokenBinding(
            status=T.TokenBindingStatus.PRESENT, id=t))
    r = go(d)
    c.check(r[0] == 'ok' and same(c, r[1], {
        'type': t, 'challenge': 'c', 'origin': 'o',
        N('token_binding', 'tokenBinding'): {'status': 'present', 'id': t}}),
        'wrong JSON for client data')
    x = T.AuthenticationExtensionsClientOutputs(
        appid=True, uvm=[[1, 2]], uvi=b, loc=T.Coordinates(
            latitude=1.5, longitude=2.5, accuracy=3, altitude_accuracy=4))
    r = go(x)
    c.check(r[0] == 'ok' and same(c, r[1], {
        'appid': True, 'uvm': [[1, 2]], 'uvi': b64(c, b),
        'loc': {'latitude': 1.5, 'longitude': 2.5, 'accuracy': 3,
                N('altitude_accuracy', 'altitudeAccuracy'): 4}}),
        'wrong JSON for extension outputs')
