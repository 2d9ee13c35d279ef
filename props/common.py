"""Shared pieces of the harnesses: ceremonies whose every part can be
replaced, registrars that record, covering arrays of option settings."""
import itertools
import random

from symex import keys

KINDS = {
    # name: (curve or key kind, hash, COSE alg, COSE crv, coordinate bytes)
    'ES256': ('secp256r1', 'sha256', -7, 1, 32),
    'ES384': ('secp384r1', 'sha384', -35, 2, 48),
    'ES512': ('secp521r1', 'sha512', -36, 3, 66),
    'Ed25519': ('ed25519', 'eddsa', -8, 6, 32),
    'Ed448': ('ed448', 'eddsa', -8, 7, 57),
}
UP, UV, AT, ED = 1, 4, 0x40, 0x80
GET, CREATE = 'webauthn.get', 'webauthn.create'
RP_ID = 'example.com'
ORIGIN = 'https://example.com'


def covering(options, strength=2, seed_rows=()):
    """Rows covering every combination of `strength` option values (greedy,
    deterministic)."""
    names = list(options)
    need = set()
    for combo in itertools.combinations(names, min(strength, len(names))):
        for vals in itertools.product(*[range(len(options[n]))
                                        for n in combo]):
            need.add(tuple(zip(combo, vals)))
    rows = []

    def cover(row):
        for combo in itertools.combinations(names, min(strength, len(names))):
            need.discard(tuple((n, row[n]) for n in combo))
    for r in seed_rows:
        row = {n: options[n].index(r.get(n, options[n][0])) for n in names}
        rows.append(row)
        cover(row)
    while need:
        first = min(need)
        row = dict(first)
        for n in names:
            if n in row:
                continue
            best, bestv = -1, 0
            for v in range(len(options[n])):
                trial = dict(row)
                trial[n] = v
                score = sum(1 for t in need if all(
                    trial.get(a) == b for a, b in t if a in trial) and
                    any(a == n and b == v for a, b in t))
                if score > best:
                    best, bestv = score, v
            row[n] = bestv
        rows.append(row)
        cover(row)
    return [{n: options[n][r[n]] for n in names} for r in rows]


def some_bytes(c, name, n):
    """n bytes: all of them symbolic, or, of more than 150, the first 16, 8 in
    the middle and the last 16."""
    if n <= 150:
        return c.bytes(name, n)
    fill = bytes(i * 37 + 11 & 255 for i in range(n))
    m = n // 2
    return c.bytes(name, 16) + fill[16:m] + c.bytes(name + '.middle', 8) + \
        fill[m + 8:-16] + c.bytes(name + '.end', 16)


# ------------------------------------------------------------------- keys
class Key:
    def __init__(self, kind, model, desc, hash_name, x, y):
        self.kind, self.model, self.desc = kind, model, desc
        self.hash, self.x, self.y = hash_name, x, y
        self.extra = {}


def make_key(c, kind, name='key', fixed=None, enum='Value', alg_name=None,
             **kw):
    """A credential public key of the given algorithm with symbolic (or
    fixed) coordinates."""
    curve, h, alg, crv, n = KINDS[kind]
    T = c.M.types
    A = getattr(T.COSEAlgorithmIdentifier, enum)
    K = getattr(T.COSEKeyType, enum)
    ec = curve in keys.CURVES
    if fixed is not None:
        raw = keys.raw_public(curve, fixed)
        x, y = raw[0], raw[1] if ec else None
    else:
        x = c.bytes(name + '.x', n)
        y = c.bytes(name + '.y', n) if ec else None
    if alg_name is not None:
        h = KINDS[alg_name][1]
    algname = {'ES256': 'ES256', 'ES384': 'ES384', 'ES512': 'ES512',
               'Ed25519': 'EDDSA', 'Ed448': 'EDDSA'}[alg_name or kind]
    if ec:
        C = getattr(T.EC2Curve, enum)
        crvm = {1: C.P_256, 2: C.P_384, 3: C.P_521}[crv]
        m = T.EC2CredentialPublicKey(
            kty=K.EC2, alg=getattr(A, algname), x=x, y=y, crv=crvm, **kw)
        return Key(kind, m, (curve, x, y), h, x, y)
    C = getattr(T.OKPCurve, enum)
    crvm = {6: C.ED25519, 7: C.ED448}[crv]
    m = T.OKPCredentialPublicKey(
        kty=K.OKP, alg=A.EDDSA, x=x, crv=crvm, **kw)
    return Key(kind, m, (curve, x), h, x, None)


def add_key_members(c, key, what, name='key'):
    """Give a key members that nothing depends on: 'all' | 'ops' | 'none'."""
    if what == 'none':
        return key
    ops = c.M.types.COSEKeyOperation.Value
    key.model.key_ops = [ops.VERIFY] if what == 'ops' else \
        [ops.VERIFY, ops.SIGN]
    key.extra = {4: [x.value for x in key.model.key_ops]}
    if what == 'all':
        key.model.kid = c.bytes(name + '.kid', 4)
        key.model.base_IV = c.bytes(name + '.iv', 3)
        key.extra = {2: key.model.kid, 4: key.extra[4],
                     5: key.model.base_IV}
    return key


def cose_dict(key):
    """The CBOR-decoded COSE map of a key, members in ascending order."""
    curve, h, alg, crv, n = KINDS[key.kind]
    d = {1: 2 if key.y is not None else 1, 3: alg}
    d.update(key.extra)
    d.update({-1: crv, -2: key.x})
    if key.y is not None:
        d[-3] = key.y
    return d


def siglen(kind):
    return keys.SIGLEN[KINDS[kind][0]]


CERTKEYS = ('secp256r1', 'secp384r1', 'secp521r1', 'ed25519', 'ed448', 'rsa',
            'dsa', 'secp256k1', 'brainpoolP256r1', 'secp224r1', 'secp192r1',
            'brainpoolP384r1')


def cert_key(c, name='certkey', fixed=0):
    """(description, kind or None, length of signatures) of a certificate's
    key of any sort."""
    k = c.choice(name, CERTKEYS)
    if k in ('rsa', 'dsa'):
        return (k,), None, 71
    kind = {KINDS[x][0]: x for x in KINDS}.get(k)
    return (k,) + keys.raw_public(k, fixed), kind, keys.SIGLEN[k]


# ----------------------------------------------------------------- registrar
def make_registrar(c, data=None, get=None, result=None, on_register=None):
    """A CredentialsRegistrar recording every call."""
    base = c.M.registrars.CredentialsRegistrar

    class Registrar(base):
        def __init__(self):
            self.calls = []
            self.data = data

        def get_credential_data(self, credential_id):
            self.calls.append(('get', {'credential_id': credential_id}))
            if get is not None:
                return get(credential_id)
            return data

        def register_credential_attestation(
                self, credential, att, att_type, user, rp,
                trusted_path=None):
            self.calls.append(('attestation', {
                'credential': credential, 'att': att, 'att_type': att_type,
                'user': user, 'rp': rp, 'trusted_path': trusted_path}))
            if on_register is not None:
                return on_register()
            return result

        def register_credential_assertion(
                self, credential, authenticator_data, user, rp):
            self.calls.append(('assertion', {
                'credential': credential,
                'authenticator_data': authenticator_data, 'user': user,
                'rp': rp}))
            if on_register is not None:
                return on_register()
            return result

        def registered(self):
            return [x for x in self.calls if x[0] != 'get']
    return Registrar()


def backend_for(c, registrar):
    """A backend; the same one for all ceremonies of a history that shares it,
    over a registrar that asks the present ceremony's."""
    B = c.M.backends.CredentialsBackend
    shared = getattr(c, 'shared', None)
    if shared is None:
        return B(registrar)
    if not shared:
        base = c.M.registrars.CredentialsRegistrar

        class Switch(base):
            def get_credential_data(self, *a, **k):
                return self.now.get_credential_data(*a, **k)

            def register_credential_attestation(self, *a, **k):
                return self.now.register_credential_attestation(*a, **k)

            def register_credential_assertion(self, *a, **k):
                return self.now.register_credential_assertion(*a, **k)
        shared['switch'] = Switch()
        shared['backend'] = B(shared['switch'])
    shared['switch'].now = registrar
    return shared['backend']


# ---------------------------------------------------------------- documents
def token_binding_members(c, tb):
    """Slot of the clientData tokenBinding member for 'none' | 'supported' |
    'present' | 'supported+id'."""
    if tb == 'none':
        return []
    if tb == 'supported':
        return [('tokenBinding', True, lambda: c.dict(
            [('status', True, 'supported')]))]
    if tb == 'present':
        return [('tokenBinding', True, lambda: c.dict(
            [('status', True, 'present'),
             ('id', True, lambda: c.text('tb.id', 4, 33, 126))]))]
    raise KeyError(tb)


def expected_token_binding(c, tb):
    T = c.M.types
    if tb == 'none':
        return None
    if tb == 'supported':
        return T.TokenBinding(status=T.TokenBindingStatus.SUPPORTED)
    return T.TokenBinding(status=T.TokenBindingStatus.PRESENT,
                          id=c.text('tb.id', 4, 33, 126))


EXT_VALUES = {
    'appid': lambda c: c.choice('ext.appid', [True, False]),
    'uvi': lambda c: c.bytes('ext.uvi', 3),
    'txAuthSimple': lambda c: 'ok',
}


class Ceremony:
    """Common to both ceremonies.  Members are overridable before go()."""
    TYPE = None
    after = False
    # bytes of challenge, credential id and user id
    SIZES = {'usual': (16, 8, 8), 'long': (64, 64, 64), 'short': (1, 1, 1),
             'huge': (1000, 1100, 300)}
    # bytes of the client data
    DOC_SIZES = {'usual': 1024, 'long': 2047, 'short': 511, 'huge': 6001}
    MORE = {'sizes': ['usual', 'long', 'short', 'huge'],
            'icons': ['none', 'given', 'stored', 'both', 'same'],
            'keyx': ['none', 'all', 'ops'], 'cdx': [False, True]}

    def __init__(self, c, opts=None):
        self.c = c
        self.before_origin = None
        self.o = dict(self.DEFAULTS)
        self.o.update(opts if opts is not None else c.cfg.get('opts', {}))
        o, M, T = self.o, c.M, c.M.types
        # sizes, and members that nothing depends on
        for k, v in zip(('challenge_len', 'raw_id_len', 'user_id_len'),
                        self.SIZES[o['sizes']]):
            o.setdefault(k, v)
        self.challenge = some_bytes(c, 'challenge', o['challenge_len'])
        self.members = {
            'type': self.TYPE,
            'challenge': lambda: c.url64(self.challenge, pad=False),
            'origin': ORIGIN,
        }
        self.tb_slots = token_binding_members(c, o['tb'])
        self.extra_members = [
            ('crossOrigin', True, False), ('androidPackageName', True, 'x'),
            ('hashAlgorithm', True, 'SHA-256')] if o['cdx'] else []
        self.cd_kinds = ('ok',)
        self.expected_challenge = self.challenge
        self.expected_origin = {
            'str': ORIGIN, 'list': [ORIGIN],
            'first': [ORIGIN, 'https://other.example'],
            'last': ('https://other.example', ORIGIN),
            'set': {ORIGIN, 'https://other.example:8443'},
            'many': ['https://%s.example' % ('a' * i) for i in range(1, 26)] +
                    [ORIGIN] + ['http://b%d.example' % i for i in range(5)],
        }[o['origin']]
        self.token_binding = expected_token_binding(c, o['tb'])
        self.require_uv = o['require_uv']
        icon = {'given': 'https://x.example/i', 'both': 'https://x.example/j',
                'same': 'data:,'}.get(o['icons'])
        self.icon = {'stored': 'https://x.example/i', 'both': 'data:,',
                     'same': 'data:,'}.get(o['icons'])
        self.rp = T.PublicKeyCredentialRpEntity(name='RP', id=RP_ID,
                                                icon=icon)
        self.user_id = some_bytes(c, 'user_id', o['user_id_len'])
        self.user = T.PublicKeyCredentialUserEntity(
            name='user', id=self.user_id, display_name='User', icon=icon)
        self.raw_id = some_bytes(c, 'raw_id', o['raw_id_len'])
        self.rp_id_hash = c.sha256(RP_ID.encode())
        self.count = c.bytes('count', 4)
        self.count_int = None
        self.expected_extensions = None
        self.ext_map = None
        E = T.ExtensionIdentifier
        if o['ext'] == 'expected':
            self.expected_extensions = {E.APPID}
            self.ext_map = {'appid': True}
        elif o['ext'] == 'frozen':
            self.expected_extensions = frozenset([E.APPID])
            self.ext_map = {'appid': True}
        elif o['ext'] == 'sent':
            self.ext_map = {'txAuthSimple': 'ok'}
        if self.ext_map is not None and o['sizes'] == 'huge':
            self.ext_map['txAuthGeneric'] = some_bytes(c, 'ext.long', 400)
            self.ext_map['exts'] = ['appid'] * 30
        self.flags_fixed = None

    def flags(self, at, ed):
        """An honest flags byte: UP set, UV set if required, other bits free.
        """
        if self.flags_fixed is not None:
            return self.flags_fixed
        c = self.c
        f = c.bytes('flags', 1)
        v = f[0]
        want = UP | (AT if at else 0) | (ED if ed else 0)
        mask = UP | AT | ED
        if self.require_uv:
            want |= UV
            mask |= UV
        c.assume((v & mask) == want)
        return f

    def client_data(self, name='clientData'):
        def structure(c):
            return c.dict([(k, True, v) for k, v in self.members.items()] +
                          list(self.tb_slots) + list(self.extra_members))
        return self.c.json(name, structure, self.cd_kinds,
                           self.DOC_SIZES[self.o['sizes']])


class Assertion(Ceremony):
    TYPE = GET
    DEFAULTS = {'kind': 'ES256', 'user': 'given', 'handle': 'given',
                'rp': 'both', 'allow': 'none', 'tb': 'none',
                'require_uv': False, 'ext': 'none', 'at': False,
                'counter': 'none', 'ignore_clone': False, 'origin': 'str',
                'sizes': 'usual', 'icons': 'none', 'keyx': 'none',
                'cdx': False, 'key': 'fixed'}
    OPTIONS = {'kind': ['ES256', 'Ed25519', 'ES384'],
               'user': ['given', 'none'],
               'handle': ['given', 'none'],
               'rp': ['both', 'argument', 'registered'],
               'allow': ['none', 'one', 'last'],
               'tb': ['none', 'supported', 'present'],
               'require_uv': [False, True],
               'ext': ['none', 'expected', 'sent', 'frozen'],
               'counter': ['none', 'lower', 'zero'],
               'ignore_clone': [False, True],
               'origin': ['str', 'list', 'last', 'many']}

    @classmethod
    def rows(cls, tier, without=(), strength=None, more=None):
        opts = {k: v for k, v in cls.OPTIONS.items() if k not in without}
        rest = {k: v for k, v in cls.MORE.items() if k not in without}
        if tier != 'thorough':
            opts.update(rest)
        if tier == 'thorough':
            opts = dict(opts)
            if 'kind' in opts:
                opts['kind'] = list(KINDS)
            if 'origin' in opts:
                opts['origin'] = ['str', 'list', 'first', 'last', 'set',
                                  'many']
        opts.update(more or {})
        rows = covering(opts, strength or (3 if tier == 'thorough' else 2),
                        [{}])
        if tier == 'thorough':
            rnd = random.Random(7)
            for r in rows[1:]:
                r.update((k, rnd.choice(v)) for k, v in rest.items()
                         if k not in opts)
        for r in rows:
            if r.get('user') == 'none' and r.get('handle') == 'none':
                r['handle'] = 'given'
        return rows

    def __init__(self, c, opts=None):
        super().__init__(c, opts)
        o, T = self.o, c.M.types
        self.key = make_key(c, o['kind'],
                            fixed=0 if o['key'] == 'fixed' else None)
        add_key_members(c, self.key, o['keyx'])
        self.registered_user = self.user if o['user'] == 'none' else \
            T.PublicKeyCredentialUserEntity(
                name='user', id=self.user_id, display_name='Registered',
                icon=self.icon)
        self.user_arg = None if o['user'] == 'none' else self.user
        self.user_handle = self.user_id if o['handle'] == 'given' else None
        self.rp_arg = None if o['rp'] == 'registered' else self.rp
        self.registered_rp = None if o['rp'] == 'argument' else (
            T.PublicKeyCredentialRpEntity(name='Registered RP', id=RP_ID,
                                          icon=self.icon))
        self.allow = None
        self.signature_count = None
        self.ignore_clone = o['ignore_clone']
        self.signature = c.bytes('signature', siglen(o['kind']))
        self.sign = True
        self.registrar = None
        self.registrar_result = None
        self.cred_id = 'cred'
        self.type = 'public-key'
        self.data_present = True

    def descriptor(self, id_):
        T = self.c.M.types
        # of several descriptors, some name transports
        self.described = getattr(self, 'described', 0) + 1
        t = (None, None, [T.AuthenticatorTransport.USB], [])[
            (self.described + (self.o['icons'] != 'none')) % 4]
        return T.PublicKeyCredentialDescriptor(
            type=T.PublicKeyCredentialType.PUBLIC_KEY, id=id_, transports=t)

    def attested(self):
        """Attested credential data bytes (for an assertion with AT)."""
        c = self.c
        return c.bytes('aaguid', 16) + b'\x00\x02' + c.bytes('acd.id', 2) + \
            c.cbor_encode(cose_dict(make_key(c, 'ES256', 'acd', fixed=1)))

    def auth_data(self):
        c = self.c
        at, ed = self.o['at'], self.ext_map is not None
        rest = b''
        if at:
            rest = rest + self.attested()
        if ed:
            rest = rest + c.cbor_encode(self.ext_map)
        return self.rp_id_hash + self.flags(at, ed) + self.count + rest

    def build(self):
        c, T = self.c, self.c.M.types
        o = self.o
        if self.allow is None and o['allow'] != 'none':
            d = self.descriptor
            self.allow = [d(self.raw_id)] if o['allow'] == 'one' else \
                [d(b'other'), d(b'another'), d(self.raw_id)]
        self.count_value = be32(c, self.count)
        if self.signature_count is None and o['counter'] != 'none':
            if o['counter'] == 'zero':
                self.signature_count = 0
            else:
                self.signature_count = c.int('stored', 0, 2 ** 32 - 1)
                c.assume(self.signature_count < self.count_value)
        self.cdj = self.client_data()
        if not hasattr(self, 'ad'):
            self.ad = self.auth_data()
        if self.sign:
            c.assume(self.signature_ok())
        self.response = T.AuthenticatorAssertionResponse(
            client_data_JSON=self.cdj, authenticator_data=self.ad,
            signature=self.signature, user_handle=self.user_handle)
        self.credential = T.PublicKeyCredential(
            id=self.cred_id, type=self.type, raw_id=self.raw_id,
            response=self.response)
        self.data = c.M.registrars.CredentialData(
            credential_public_key=self.key.model,
            signature_count=self.signature_count,
            user_entity=self.registered_user,
            rp_entity=self.registered_rp) if self.data_present else None
        if self.registrar is None:
            self.registrar = make_registrar(c, self.data,
                                            result=self.registrar_result)
        self.backend = backend_for(c, self.registrar)
        return self

    def signed_data(self):
        return self.ad + self.c.sha256(self.cdj)

    def signature_ok(self):
        return self.c.sig_valid(self.key.desc, self.key.hash,
                                self.signed_data(), self.signature)

    def go(self):
        c = self.c
        if 'before' in c.cfg and not self.after:
            self.after = True
            earlier(self)
        r = c.call(
            self.backend.handle_credential_assertion,
            credential=self.credential,
            expected_challenge=self.expected_challenge,
            expected_origin=self.expected_origin,
            rp=self.rp_arg, user=self.user_arg,
            allow_credentials=self.allow,
            token_binding=self.token_binding,
            require_user_verification=self.require_uv,
            expected_extensions=self.expected_extensions,
            ignore_clone_error=self.ignore_clone)
        note(c, r)
        return r


class Registration(Ceremony):
    TYPE = CREATE
    DEFAULTS = {'kind': 'ES256', 'fmt': 'none', 'tb': 'none',
                'require_uv': False, 'ext': 'none', 'origin': 'str',
                'sizes': 'usual', 'icons': 'none', 'keyx': 'none',
                'cdx': False, 'key': 'fixed'}
    OPTIONS = {'kind': ['ES256', 'Ed25519', 'ES384'],
               'fmt': ['none', 'fido-u2f', 'android-key'],
               'tb': ['none', 'supported', 'present'],
               'require_uv': [False, True],
               'ext': ['none', 'expected', 'sent', 'frozen'],
               'origin': ['str', 'list', 'last', 'many']}

    @classmethod
    def rows(cls, tier, without=(), strength=None, more=None):
        opts = {k: v for k, v in cls.OPTIONS.items() if k not in without}
        rest = {k: v for k, v in cls.MORE.items() if k not in without}
        if tier != 'thorough':
            opts.update(rest)
        if tier == 'thorough':
            opts = dict(opts)
            if 'kind' in opts:
                opts['kind'] = list(KINDS)
            if 'origin' in opts:
                opts['origin'] = ['str', 'list', 'first', 'last', 'set',
                                  'many']
        opts.update(more or {})
        rows = covering(opts, strength or (3 if tier == 'thorough' else 2),
                        [{}])
        if tier == 'thorough':
            rnd = random.Random(7)
            for r in rows[1:]:
                r.update((k, rnd.choice(v)) for k, v in rest.items()
                         if k not in opts)
        for r in rows:
            if r.get('fmt') == 'fido-u2f':
                r['kind'] = 'ES256'
        return rows

    def __init__(self, c, opts=None):
        super().__init__(c, opts)
        o = self.o
        self.key = make_key(c, o['kind'],
                            fixed=0 if o['key'] == 'fixed' else None)
        add_key_members(c, self.key, o['keyx'])
        self.aaguid = c.bytes('aaguid', 16)
        self.cred_id = 'cred'
        self.type = 'public-key'
        self.fmt = o['fmt']
        self.registrar = None
        self.registrar_result = None
        self.sign = True
        self.att_key = make_key(c, 'ES256', 'att', fixed=1)
        self.at = True

    def attested(self):
        c = self.c
        n = len(self.raw_id)
        return self.aaguid + n.to_bytes(2, 'big') + self.raw_id + \
            c.cbor_encode(cose_dict(self.key))

    def auth_data(self):
        c = self.c
        ed = self.ext_map is not None
        rest = self.attested() if self.at else b''
        if ed:
            rest = rest + c.cbor_encode(self.ext_map)
        return self.rp_id_hash + self.flags(self.at, ed) + self.count + rest

    def att_stmt(self):
        """Statement members and what must be signed for it."""
        c = self.c
        h = c.sha256(self.cdj)
        if self.fmt == 'none':
            return {}
        if self.fmt == 'fido-u2f':
            self.att_sig = c.bytes('att.sig', siglen('ES256'))
            k = self.att_key
            self.att_cert = c.cert('att.cert', lambda c: k.desc)
            self.att_data = b'\x00' + self.rp_id_hash + h + self.raw_id + \
                b'\x04' + self.key.x + self.key.y
            if self.sign:
                c.assume(c.sig_valid(k.desc, 'sha256', self.att_data,
                                     self.att_sig))
            return {'sig': self.att_sig, 'x5c': [self.att_cert]}
        if self.fmt == 'android-key':
            self.att_sig = c.bytes('att.sig', siglen(self.o['kind']))
            k = self.key
            self.kd = c.key_description(
                'att.kd', lambda c: (2, 1, 3, 1, h, b''),
                lambda c: {}, lambda c: {1: ('set', [2]),
                                         702: ('int', 0)})
            self.att_cert = c.cert(
                'att.cert', lambda c: k.desc,
                lambda c: [(ANDROID_OID, self.kd)])
            self.att_data = self.ad + h
            if self.sign:
                c.assume(c.sig_valid(k.desc, k.hash, self.att_data,
                                     self.att_sig))
            alg = KINDS[self.o['kind']][2]
            return {'alg': alg, 'sig': self.att_sig, 'x5c': [self.att_cert]}
        raise KeyError(self.fmt)

    def attestation_object(self):
        stmt = self.stmt

        def structure(c):
            return {'fmt': self.fmt, 'attStmt': stmt, 'authData': self.ad}
        return self.c.cbor('attestationObject', structure)

    def build(self):
        c, T = self.c, self.c.M.types
        self.cdj = self.client_data()
        if not hasattr(self, 'ad'):
            self.ad = self.auth_data()
        if not hasattr(self, 'stmt'):
            self.stmt = self.att_stmt()
        self.ao = self.attestation_object()
        self.response = T.AuthenticatorAttestationResponse(
            client_data_JSON=self.cdj, attestation_object=self.ao)
        self.credential = T.PublicKeyCredential(
            id=self.cred_id, type=self.type, raw_id=self.raw_id,
            response=self.response)
        if self.registrar is None:
            self.registrar = make_registrar(c, None,
                                            result=self.registrar_result)
        self.backend = backend_for(c, self.registrar)
        return self

    def go(self):
        c = self.c
        if 'before' in c.cfg and not self.after:
            self.after = True
            earlier(self)
        r = c.call(
            self.backend.handle_credential_attestation,
            credential=self.credential, user=self.user, rp=self.rp,
            expected_challenge=self.expected_challenge,
            expected_origin=self.expected_origin,
            token_binding=self.token_binding,
            require_user_verification=self.require_uv,
            expected_extensions=self.expected_extensions)
        note(c, r)
        return r


ANDROID_OID = '1.3.6.1.4.1.11129.2.1.17'


def be32(c, b):
    return (b[0] << 24) | (b[1] << 16) | (b[2] << 8) | b[3]


def note(c, r):
    c.outcome(r[0], type(r[1]).__name__ if r[0] == 'err' else '')
    c.reach('accept' if r[0] == 'ok' else 'reject')


def is_error(c, r, *names):
    """The call failed with one of the named classes of webauthn_rp.errors."""
    return r[0] == 'err' and isinstance(
        r[1], tuple(getattr(c.M.errors, n) for n in names))


def verdict(c, r, cond, what, *errors):
    """Accepted if and only if cond; rejections have one of the given classes.
    """
    if r[0] == 'ok':
        c.check(cond, 'accepted although ' + what)
    else:
        c.check(c.Not(cond), 'rejected (%s) without cause: not the case that '
                '%s' % (type(r[1]).__name__, what))
        if errors:
            c.check(is_error(c, r, *errors), 'rejection because %s reported '
                    'as %s, not %s' % (what, type(r[1]).__name__,
                                       '/'.join(errors)))


def side(c, r):
    c.reach('%s-%s' % (c.cfg['cer'], 'accept' if r[0] == 'ok' else 'reject'))


SIDES = ('get-accept', 'get-reject', 'create-accept', 'create-reject')
CEREMONIES = {'get': Assertion, 'create': Registration}


def ceremony(c):
    return CEREMONIES[c.cfg['cer']](c)


OTHER_RP, OTHER_ORIGIN = 'before.example', 'https://before.example:444'


def earlier(a):
    """An accepted ceremony of the kind cfg['before'] on the same backend,
    before the one that is judged: of the same client and credential
    ('same-...') or of another one ('other-...')."""
    c, T = a.c, a.c.M.types
    who, cer = c.cfg['before'].split('-')
    p = c.apart('before.')
    b = CEREMONIES[cer](p, {'challenge_len': a.o['challenge_len'],
                            'raw_id_len': a.o['raw_id_len'],
                            'user_id_len': a.o['user_id_len'],
                            'kind': a.o['kind']})
    if who == 'same':
        b.challenge = b.expected_challenge = a.challenge
        b.raw_id, b.user_id, b.user = a.raw_id, a.user_id, a.user
        b.user_handle = a.user_id
        b.key, b.cred_id = a.key, a.cred_id
        if a.before_origin is not None:
            b.members['origin'], b.expected_origin = a.before_origin
    else:
        b.rp = b.rp_arg = b.registered_rp = T.PublicKeyCredentialRpEntity(
            name='Other', id=OTHER_RP)
        b.rp_id_hash = c.sha256(OTHER_RP.encode())
        b.members['origin'] = b.expected_origin = OTHER_ORIGIN
        b.key = make_key(p, a.o['kind'], fixed=2)
        b.require_uv = not a.require_uv
    if cer == 'get':
        b.registered_user = b.user_arg = b.user
        b.signature_count = 7
        c.assume(be32(c, b.count) > 7)
    b.build()
    saved, a.backend.registrar = a.backend.registrar, b.registrar
    b.backend = a.backend
    r = b.go()
    a.backend.registrar = saved
    c.reach('after-another')
    return r


def spread(tier, extras, without=(), which=('get', 'create'), more=None,
           strength=None, history=True):
    """Every extra setting with option rows cycled through; every option row
    occurs at least once."""
    out = []
    for cer in which:
        rows = CEREMONIES[cer].rows(tier, without, strength, more)
        ex = [e for e in extras if e.get('cer', cer) == cer]
        n = max(len(rows), len(ex))
        if tier == 'thorough':
            n = max(n, min(len(rows) * len(ex), 4 * n))
        k = 0
        for i in range(n):
            d = dict(ex[i % len(ex)])
            d['cer'] = cer
            d['opts'] = rows[(i + k) % len(rows)]
            if (i + 1) % len(rows) == 0 and len(rows) % len(ex) == 0:
                k += 1
            out.append(d)
        if history:
            few = ex if tier == 'thorough' or len(ex) <= 6 else \
                ex[::-(-len(ex) // 6)]
            for i, e in enumerate(few):
                kinds = BEFORE if tier == 'thorough' else BEFORE[i % 4:][:1]
                for j, b in enumerate(kinds):
                    out.append(dict(e, cer=cer, before=b,
                                    opts=rows[(i + j + 1) % len(rows)]))
            if len(ex) < 4 and tier == 'quick':
                for b in BEFORE[len(ex):]:
                    out.append(dict(ex[0], cer=cer, before=b,
                                    opts=rows[0]))
    return out


BEFORE = ('same-get', 'same-create', 'other-get', 'other-create')
