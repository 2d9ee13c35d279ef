"""Builders: every value given to a constructor or setter arrives in the
options, setters leave their builder as it was, whatever the history."""
from .common import *

ID = 'C31'
REQUIRED = ('creation', 'request', 'missing', 'tree', 'rebuilt', 'defaults')
BOUNDS = ('histories of up to 3 (thorough: 4) setter calls, each on any '
          'builder derived so far, with every builder built at the end, '
          'twice; texts of 2, bytes of 3, times of 0..2^32')
ASSUMPTIONS = ()
BUDGET = {'quick': 250, 'thorough': 740}

CREATION = ('rp', 'pub_key_cred_params', 'timeout', 'authenticator_selection',
            'extensions', 'attestation', 'exclude_credentials')
REQUEST = ('mediation', 'timeout', 'rp_id', 'extensions',
           'user_verification')
NULLABLE = {'timeout', 'authenticator_selection', 'extensions',
            'exclude_credentials', 'rp_id', 'user_verification'}


def configs(tier):
    out = []
    for cls, names in (('creation', CREATION), ('request', REQUEST)):
        # what the constructor is given
        inits = [(), names] + [tuple(x for x in names if x != n)
                               for n in names]
        for init in inits:
            out.append({'cls': cls, 'mode': 'init', 'init': init})
        for init in ((), names):
            for first in names:
                for n in (1, 2, 3) if tier == 'quick' else (1, 2, 3, 4):
                    if n == 4 and init == ():
                        continue
                    out.append({'cls': cls, 'mode': 'history', 'init': init,
                                'first': first, 'n': n})
        out.append({'cls': cls, 'mode': 'none'})
        out.append({'cls': cls, 'mode': 'chain'})
    return out


def value(c, name, i):
    """A fresh value for a member; i keeps values of one run apart."""
    T = c.M.types
    t = '%s.%d' % (name, i)
    if name == 'rp':
        return T.PublicKeyCredentialRpEntity(
            name=c.text(t + '.name', 2), id=c.text(t + '.id', 2),
            icon=c.text(t + '.icon', 1))
    if name == 'pub_key_cred_params':
        return [T.PublicKeyCredentialParameters(
            type=T.PublicKeyCredentialType.PUBLIC_KEY, alg=a) for a in
            list(T.COSEAlgorithmIdentifier.Value)[i % 3:3]]
    if name == 'timeout':
        return c.int(t, 0, 1 << 32)
    if name == 'authenticator_selection':
        return T.AuthenticatorSelectionCriteria(
            authenticator_attachment=list(T.AuthenticatorAttachment)[i % 2],
            require_resident_key=c.bool(t + '.rk'),
            user_verification=list(T.UserVerificationRequirement)[i % 3])
    if name == 'extensions':
        return T.AuthenticationExtensionsClientInputs(
            appid=c.text(t + '.appid', 2), uvi=c.bool(t + '.uvi'),
            authn_sel=[c.bytes(t + '.as', 2)])
    if name == 'attestation':
        return list(T.AttestationConveyancePreference)[(i + 1) % 3]
    if name == 'exclude_credentials' or name == 'allow':
        return [T.PublicKeyCredentialDescriptor(
            type=T.PublicKeyCredentialType.PUBLIC_KEY,
            id=c.bytes('%s.%d' % (t, j), 3),
            transports=list(T.AuthenticatorTransport)[j:i + 1])
            for j in range(2)]
    if name == 'mediation':
        return list(T.CredentialMediationRequirement)[
            (0, 2, 1, 0, 2)[i % 5]]
    if name == 'rp_id':
        return c.text(t, 3)
    if name == 'user_verification':
        return list(T.UserVerificationRequirement)[(0, 2, 1)[i % 3]]
    raise KeyError(name)


def same(c, a, b, depth=5):
    """Equal in every member."""
    if a is b:
        return True
    if a is None or b is None:
        return False
    if isinstance(a, (list, tuple)):
        return isinstance(b, (list, tuple)) and len(a) == len(b) and \
            c.And(*[same(c, x, y, depth - 1) for x, y in zip(a, b)])
    if type(a) is not type(b):
        return False
    da = getattr(a, '__dict__', None)
    if da is not None and 'webauthn_rp' in type(a).__module__ and \
            not hasattr(a, 'value'):
        db = b.__dict__
        return set(da) == set(db) and c.And(
            *[same(c, da[k], db[k], depth - 1) for k in da])
    return c.eq(a, b)


def defaults(c, cls):
    T = c.M.types
    if cls == 'creation':
        d = {n: None for n in CREATION}
        d['attestation'] = T.AttestationConveyancePreference.NONE
    else:
        d = {n: None for n in REQUEST}
        d['mediation'] = T.CredentialMediationRequirement.OPTIONAL
        d['user_verification'] = T.UserVerificationRequirement.PREFERRED
    return d


def required(cls):
    return ('rp', 'pub_key_cred_params', 'attestation') \
        if cls == 'creation' else ('mediation',)


def verify_build(c, cls, b, state, tag):
    T = c.M.types
    if cls == 'creation':
        user = T.PublicKeyCredentialUserEntity(
            name=c.text(tag + '.un', 1), id=c.bytes(tag + '.uid', 3),
            display_name=c.text(tag + '.ud', 1))
        ch = c.bytes(tag + '.ch', 3)
        r = c.call(b.build, user=user, challenge=ch)
    else:
        ch = c.bytes(tag + '.ch', 3)
        allow = value(c, 'allow', 1) if tag.endswith('a') else None
        r = c.call(b.build, challenge=ch, allow_credentials=allow) \
            if allow is not None else c.call(b.build, challenge=ch)
    c.outcome(r[0], type(r[1]).__name__)
    if any(state[n] is None for n in required(cls)):
        c.reach('missing')
        c.check(is_error(c, r, 'BuilderError'), 'a builder without a '
                'required member is not a BuilderError')
        return
    c.check(r[0] == 'ok', 'a complete builder does not build')
    c.reach(cls)
    o = r[1]
    pk = o.public_key
    if cls == 'creation':
        c.check(type(o) is T.CredentialCreationOptions and
                type(pk) is T.PublicKeyCredentialCreationOptions,
                'options of another class')
        c.check(same(c, pk.user, user), 'another user in the options')
        members = state
    else:
        c.check(type(o) is T.CredentialRequestOptions and
                type(pk) is T.PublicKeyCredentialRequestOptions,
                'options of another class')
        c.check(o.mediation is state['mediation'], 'another mediation in '
                'the options')
        c.check(same(c, pk.allow_credentials, allow), 'other allowed '
                'credentials in the options')
        members = {n: v for n, v in state.items() if n != 'mediation'}
    c.check(same(c, pk.challenge, ch), 'another challenge in the options')
    for n, v in members.items():
        c.check(same(c, getattr(pk, n), v), 'another %s in the options' % n)


def run(c):
    cfg = c.cfg
    cls, mode = cfg['cls'], cfg['mode']
    B = c.M.builders
    C = B.CredentialCreationOptionsBuilder if cls == 'creation' else \
        B.CredentialRequestOptionsBuilder
    names = CREATION if cls == 'creation' else REQUEST
    state = defaults(c, cls)
    if mode == 'none':
        # a required member taken away by the constructor
        for n in required(cls):
            kw = {m: value(c, m, 0) for m in names}
            kw[n] = None
            st = dict(state, **kw)
            verify_build(c, cls, C(**kw), st, 'b')
        return
    if mode == 'chain':
        # all setters, starting at any of them
        s = c.choice('start', list(range(len(names))))
        b = C()
        for n in names[s:] + names[:s]:
            state[n] = value(c, n, 0)
            r = c.call(getattr(b, n), state[n])
            c.check(r[0] == 'ok', 'setter %s fails' % n)
            b = r[1]
        verify_build(c, cls, b, state, 'b')
        return
    kw = {n: value(c, n, 0) for n in cfg['init']}
    state.update(kw)
    if mode == 'init':
        b = C(**kw)
        c.reach('defaults')
        verify_build(c, cls, b, state, 'b')
        verify_build(c, cls, b, state, 'b2a')
        verify_build(c, cls, b, state, 'b3')
        verify_build(c, cls, C(), defaults(c, cls), 'b4')
        return
    builders = [(C(**kw), state)]
    for i in range(cfg['n']):
        n = cfg['first'] if i == 0 else c.choice('set%d' % i, names)
        k = 0 if i == 0 else c.choice('on%d' % i, list(range(len(builders))))
        if k < i:
            c.reach('tree')
        null = n in NULLABLE and bool(c.bool('null%d' % i))
        b, st = builders[k]
        v = None if null else value(c, n, i + 1)
        r = c.call(getattr(b, n), v)
        c.check(r[0] == 'ok', 'setter %s fails' % n)
        c.check(type(r[1]) is C, 'setter %s gives no builder' % n)
        builders.append((r[1], dict(st, **{n: v})))
    for i, (b, st) in enumerate(builders):
        verify_build(c, cls, b, st, 'b%d' % i)
    c.reach('rebuilt')
    for i, (b, st) in reversed(list(enumerate(builders))):
        verify_build(c, cls, b, st, 'c%da' % i)
