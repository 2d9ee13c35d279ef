"""Error containment: whatever the credential contains, a ceremony ends with
success or with a WebAuthnRPError, and failures register nothing."""
from symex.ctx import CBOR_KINDS, JSON_KINDS

from .common import *

ID = 'C15'
REQUIRED = SIDES
BOUNDS = ('client data: every kind of undecodable document and every '
          'combination of two members of unexpected type; authenticator data '
          'cut at every length; attestation objects and statements with '
          'members of unexpected type; undecodable CBOR, certificates and key '
          'descriptions; registrars that raise or return anything')
ASSUMPTIONS = ('the arguments have the documented types',
               'kinds of undecodable CBOR are those listed in DESIGN.md')

ODD = ['text', '', None, 0, -1, True, 1.5, [], [1], {}, {'a': 1}]
ODDC = ODD + [b'', b'x', 2 ** 64, 1 << 80]


def configs(tier):
    ex = [{'mode': 'cd-kinds'}]
    for m in ('type', 'challenge', 'origin', 'tokenBinding', 'whole'):
        ex.append({'mode': 'cd-member', 'm': m})
    ex += [{'mode': 'tb', 'm': m} for m in ('status', 'id')]
    ex += [{'mode': 'challenge-text', 'n': n} for n in (1, 2, 3)]
    ex += [{'mode': 'origin-text', 'n': n} for n in (1, 2)]
    ex += [{'mode': 'cut'}, {'mode': 'extra'}, {'mode': 'ext-kinds'},
           {'mode': 'ext-odd'}]
    ex += [{'mode': 'no-attested', 'cer': 'create'},
           {'mode': 'ao-kinds', 'cer': 'create'},
           {'mode': 'key-kinds', 'cer': 'create'},
           {'mode': 'key-odd', 'cer': 'create'}]
    ex += [{'mode': 'ao-member', 'm': m, 'cer': 'create'}
           for m in ('fmt', 'attStmt', 'authData', 'whole')]
    ex += [{'mode': 'fmt', 'cer': 'create'}]
    ex += [{'mode': 'registrar', 'm': m, 'cer': 'get'}
           for m in ('whole', 'credential_public_key', 'signature_count',
                     'user_entity', 'rp_entity', 'key_alg', 'key_x')]
    ex += [{'mode': 'raises', 'm': m} for m in ('get', 'register')]
    out = spread(tier, ex, history=tier == 'thorough')
    out += [d for d in spread('quick', [{'mode': 'cd-member', 'm': 'type'},
                                        {'mode': 'registrar', 'cer': 'get',
                                         'm': 'whole'}]) if 'before' in d]
    for fmt in ('fido-u2f', 'android-key'):
        for kind in ('ES256',) if fmt == 'fido-u2f' else ('ES256',
                                                          'Ed25519'):
            o = dict(Registration.DEFAULTS, fmt=fmt, kind=kind)
            for m in ('sig', 'x5c', 'alg'):
                out.append({'cer': 'create', 'mode': 'stmt', 'm': m,
                            'opts': o})
            for m in ('cert', 'x5c-len', 'certkey', 'sig-len'):
                out.append({'cer': 'create', 'mode': m, 'opts': o})
            if fmt == 'android-key':
                for m in ('kd-bad', 'alg-any', 'noext'):
                    out.append({'cer': 'create', 'mode': m, 'opts': o})
    return out


class Odd:
    pass


FAULTS = [RecursionError, MemoryError, OverflowError, ZeroDivisionError,
          StopIteration, AttributeError, OSError, UnicodeError, EOFError,
          NotImplementedError, AssertionError, KeyError]


def odd_registrar(c, a):
    m = c.cfg['m']
    v = c.choice('registered', ODDC + [Odd(), (), (1, 2, 3, 4), Odd])
    T = c.M.types
    f = {'credential_public_key': a.key.model, 'signature_count': 0,
         'user_entity': a.user, 'rp_entity': a.rp}
    if m in f:
        f[m] = v
    elif m.startswith('key_'):
        k = {'x': a.key.x, 'y': a.key.y, 'crv': a.key.model.crv,
             'alg': a.key.model.alg, 'kty': a.key.model.kty}
        if a.key.y is None:
            del k['y']
        k[m[4:]] = v
        f['credential_public_key'] = type(a.key.model)(**k)
    a.registrar = make_registrar(
        c, None, get=lambda i: v if m == 'whole' else
        c.M.registrars.CredentialData(**f))
    if m in ('rp_entity', 'user_entity'):
        a.rp_arg = a.user_arg = None


def run(c):
    mode = c.cfg['mode']
    create = c.cfg['cer'] == 'create'
    a = ceremony(c)
    if mode == 'registrar':
        odd_registrar(c, a)
    elif mode == 'raises':
        f = c.choice('fault', FAULTS)

        def boom(*x):
            raise f('x')
        if c.cfg['m'] == 'get':
            a.registrar = make_registrar(c, None, get=boom)
        else:
            a.build()
            a.registrar = make_registrar(c, getattr(a, 'data', None),
                                         on_register=boom)
    elif mode == 'cd-kinds':
        a.cd_kinds = JSON_KINDS
    elif mode == 'cd-member':
        m = c.cfg['m']
        if m == 'whole':
            v = c.choice('whole', ODD)
            a.client_data = lambda: c.json('clientData', lambda c: v)
        elif m == 'tokenBinding':
            v = c.choice('member', ODD)
            a.tb_slots = [(m, 'has', lambda: v)]
        else:
            v = c.choice('member', ODD)
            a.members.pop(m)
            a.extra_members = [(m, 'has', lambda: v)]
    elif mode == 'tb':
        m = c.cfg['m']
        v = c.choice('member', ODD)
        tb = {'status': 'present', 'id': 'tbid'}
        tb[m] = v
        a.tb_slots = [('tokenBinding', True, tb)]
    elif mode == 'challenge-text':
        a.members['challenge'] = c.text('ctext', c.cfg['n'])
    elif mode == 'origin-text':
        a.members['origin'] = 'https://a' + c.text('otext', c.cfg['n'])
    elif mode == 'cut':
        whole = a.auth_data()
        n = c.choice('cut', list(range(len(whole) + 1)))
        a.ad = whole[:n]
    elif mode == 'extra':
        a.ad = a.auth_data() + c.bytes('tail', c.choice('tail_length',
                                                        [1, 2, 20]))
    elif mode == 'ext-kinds':
        rest = a.attested() if create else b''
        a.ad = a.rp_id_hash + a.flags(create, True) + a.count + rest + \
            _blob(c, CBOR_KINDS)
    elif mode == 'ext-odd':
        key = c.choice('extension', ['appid', 'txAuthSimple', 'exts', 'loc',
                                     'uvm', 'uvi', 'bogus', 1, b'x'])
        a.ext_map = {key: c.choice('output', ODDC)}
        if key == 'appid' and c.choice('as_list', [False, True]):
            a.ext_map = [a.ext_map]
    elif mode == 'no-attested':
        a.at = False
        a.attested = lambda: b''
    elif mode == 'ao-kinds':
        a.build()
        a.attestation_object = lambda: c.cbor(
            'ao', lambda c: {}, CBOR_KINDS)
    elif mode == 'key-kinds':
        n = len(a.raw_id)
        a.attested = lambda: a.aaguid + n.to_bytes(2, 'big') + a.raw_id + \
            _blob(c, CBOR_KINDS)
    elif mode == 'key-odd':
        m = c.choice('key_member', [1, 3, -1, -2, -3, 4, 2, 5])
        d = cose_dict(a.key)
        v = c.choice('key_value', ODDC + ['drop', ['sign', 1], [1 << 70]])
        if v == 'drop':
            d.pop(m, None)
        else:
            d[m] = v
        n = len(a.raw_id)
        a.attested = lambda: a.aaguid + n.to_bytes(2, 'big') + a.raw_id + \
            c.cbor_encode(d)
    elif mode in ('ao-member', 'fmt'):
        m = c.cfg.get('m', 'fmt')
        v = c.choice('ao_value', ODDC if mode == 'ao-member' else [
            'packed', 'tpm', 'android-key', 'android-safetynet', 'fido-u2f',
            'none', 'apple', 'None'])
        drop = c.bool('ao_drop')

        def attestation_object():
            def structure(c):
                if m == 'whole':
                    return v
                d = {'fmt': a.fmt, 'attStmt': a.stmt, 'authData': a.ad}
                if drop:
                    d.pop(m)
                else:
                    d[m] = v
                return d
            return c.cbor('attestationObject', structure)
        a.attestation_object = attestation_object
    elif mode == 'stmt':
        old = a.att_stmt

        def att_stmt():
            s = dict(old())
            v = c.choice('stmt_value', ODDC + ['drop', [b'x'], [b'x', b'y'],
                                               (), -35, -8])
            if v == 'drop':
                s.pop(c.cfg['m'], None)
            else:
                s[c.cfg['m']] = v
            if c.choice('stmt_extra', [False, True]):
                s['extra'] = 1
            return s
        a.att_stmt = att_stmt
    elif mode in ('cert', 'x5c-len', 'certkey', 'sig-len', 'kd-bad',
                  'alg-any', 'noext'):
        old = a.att_stmt

        def att_stmt():
            s = dict(old())
            if mode == 'cert':
                s['x5c'] = [c.cert('bad.cert', lambda c: a.att_key.desc,
                                   kinds=('ok', 'bad'))]
            elif mode == 'x5c-len':
                n = c.choice('x5c_length', [0, 1, 2, 3])
                s['x5c'] = s['x5c'] * n
            elif mode == 'certkey':
                desc = cert_key(c, 'cert_key', 2)[0]
                s['x5c'] = [c.cert('other.cert', lambda c: desc)]
            elif mode == 'sig-len':
                n = c.choice('sig_length', [0, 1, 8])
                s['sig'] = c.bytes('short%d' % n, n)
            elif mode == 'alg-any':
                s['alg'] = c.choice('alg', [-7, -8, -35, -36, -257, 0,
                                            'ES256', 'EdDSA'])
            elif mode == 'noext':
                s['x5c'] = [c.cert('plain.cert', lambda c: a.key.desc)]
            else:
                kd = c.key_description(
                    'bad.kd', lambda c: (2, 1, 3, 1, c.sha256(a.cdj), b''),
                    lambda c: {}, lambda c: {}, kinds=('ok', 'bad'))
                s['x5c'] = [c.cert('kd.cert', lambda c: a.key.desc,
                                   lambda c: [(ANDROID_OID, kd)])]
            return s
        a.att_stmt = att_stmt
    if create and mode in ('stmt', 'cert', 'x5c-len', 'certkey', 'sig-len',
                           'alg-any'):
        a.sign = False
    a.build()
    r = a.go()
    side(c, r)
    if r[0] == 'err':
        c.check(isinstance(r[1], c.M.errors.WebAuthnRPError),
                'the ceremony ends with %s' % type(r[1]).__name__)
        if mode != 'raises':
            c.check(len(a.registrar.registered()) == 0, 'registered although '
                    'the ceremony failed')


def _blob(c, kinds):
    from symex import models
    k = c.choice('blob', [x for x in kinds if x != 'ok'])
    return models.CBOR_BAD[k][0]
