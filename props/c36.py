"""An earlier call never influences a later one."""
from . import compose
from .common import *

ID = 'C36'
REQUIRED = ('one-earlier', 'two-earlier', 'later-done')
BOUNDS = ('histories of one or two earlier calls (thorough: all ordered pairs '
          'of scenes, and two earlier calls for each) of %d scenes over '
          'parsers, converters, attestation, verification, validation, '
          'builders and both ceremonies (all with one backend), each with symbolic inputs of its '
          'own; what the later call must do is what the harness of its own '
          'property demands')
ASSUMPTIONS = ('the registrar of the application is given, so what it answers '
               'is the same with and without the earlier calls',)
SCENES = [
    ('c04', dict(mode='honest', k=1, p=None)),
    ('c04', dict(mode='free', n=0)),
    ('c17', dict(mode='layout', body='plain', n=0)),
    ('c17', dict(mode='layout', body='both', n=1)),
    ('c17', dict(mode='layout', body='attested', kind='Ed25519')),
    ('c17', dict(mode='tail', body='plain')),
    ('c18', dict(kind='ES256', vary=[2], raw=False)),
    ('c18', dict(mode='notmap')),
    ('c18', dict(kind='Ed448', vary=[-1], raw=False)),
    ('c19', dict(kind='ES256', enum='Value')),
    ('c19', dict(kind='Ed25519', enum='Name')),
    ('c19', dict(kind='ES512', ops=1)),
    ('c20', dict(mode='roundtrip', shape='attestation', n=2)),
    ('c20', dict(mode='roundtrip', shape='assertion', handle=True, n=2)),
    ('c20', dict(mode='roundtrip', shape='assertion', handle=False, n=2)),
    ('c20', dict(mode='fields', shape='assertion', n=1, vary=[])),
    ('c20', dict(mode='text', field='rawId', n=1)),
    ('c20', dict(mode='extra', n=4)),
    ('c21', dict(mode='stmt', shape='packed', vary=[])),
    ('c21', dict(mode='stmt', shape='packed-x5c', vary=[])),
    ('c21', dict(mode='stmt', shape='packed-ecdaa', vary=[])),
    ('c21', dict(mode='add', shape='packed-x5c', m='ecdaaKeyId')),
    ('c21', dict(mode='stmt', shape='tpm-ecdaa', vary=[])),
    ('c21', dict(mode='add', shape='tpm-x5c', m='ecdaaKeyId')),
    ('c21', dict(mode='stmt', shape='fido-u2f', vary=[])),
    ('c21', dict(mode='stmt', shape='none', vary=[])),
    ('c21', dict(mode='stmt', shape='android-key', vary=[])),
    ('c21', dict(mode='fmt', n=4)),
    ('c21', dict(mode='auth')),
    ('c22', dict(mode='rich', e='appid')),
    ('c22', dict(mode='rich', e='uvi')),
    ('c22', dict(mode='key', n=3)),
    ('c22', dict(mode='coord', n=0)),
    ('c23', dict(mode='texts')),
    ('c23', dict(mode='binding', status='present', id='text')),
    ('c23', dict(mode='status')),
    ('c23', dict(mode='kinds')),
    ('c24', dict(via='direct', mode='sig', n=64)),
    ('c24', dict(via='direct', mode='cred', kind='ES256')),
    ('c25', dict(via='direct', mode='challenge', n=32)),
    ('c25', dict(via='direct', mode='purpose', where='one')),
    ('c25', dict(via='direct', mode='otherext')),
    ('c25', dict(via='direct', mode='sig', kind='Ed25519')),
    ('c26', dict(mode='direct', shape='packed')),
    ('c26', dict(mode='direct', shape='none')),
    ('c27', dict(kind='ES256', alg='ES256', key='fixed')),
    ('c27', dict(kind='ES384', alg='ES384', key='free')),
    ('c27', dict(kind='Ed25519', key='fixed')),
    ('c28', dict(mode='free', kind='ES256')),
    ('c28', dict(mode='fixed', kind='Ed448')),
    ('c28', dict(mode='direct', kind='ES384')),
    ('c29', dict(mode='parse', kind='ES256')),
    ('c30', dict(mode='objects')),
    ('c30', dict(mode='tree', n=2)),
    ('c31', dict(mode='init', cls='creation')),
    ('c31', dict(mode='init', cls='request')),
    ('c31', dict(mode='none')),
    ('c32', dict(mode='encode', n=4)),
    ('c32', dict(mode='decode', n=4)),
    ('c32', dict(mode='snake', n=3)),
    ('c32', dict(mode='camel', n=3)),
    ('c33', dict(mode='present', tags=[719])),
    ('c33', dict(mode='header')),
    ('c10', dict(mode=None)),
    ('c13', dict(mode=None)),
    ('c16', dict(cer='get')),
    ('c16', dict(cer='create')),
    ('c01', dict(cer='create')),
    ('c02', dict(mode='same', cer='get')),
    ('c05', dict(want='none', got='supported', cer='get')),
    ('c07', dict(cer='get')),
    ('c07', dict(cer='create')),
    ('c08', dict(e=['APPID'], v=0, cer='get')),
    ('c09', dict(lens=[8, 8])),
    ('c11', dict(g=0, r=0)),
    ('c12', dict(key='fixed')),
    ('c14', dict(mode='free', cer='create')),
    ('c03', dict(mode='pair', cer='create', scheme='http', other='https',
                 pe=None, pc=None)),
]
HEAVY = ('c03', 'c08', 'c09', 'c10', 'c13', 'c14', 'c18', 'c29')   # no third call
BOUNDS = BOUNDS % len(SCENES)


def CEREMONY(m):
    return m <= 'c16' and m != 'c04'


def scenes(tier):
    out = []
    for m, want in SCENES:
        for cfg in compose.module(m).configs('quick'):
            if 'before' not in cfg and all(
                    cfg.get(k) == v for k, v in want.items()):
                out.append({'of': m, 'cfg': cfg})
                break
        else:
            raise KeyError((m, want))
    return out


def configs(tier):
    S = scenes(tier)
    n = len(S)
    seen, out = set(), []

    def add(*ix):
        if ix not in seen:
            seen.add(ix)
            out.append({'calls': [S[i % n] for i in ix]})
    for i in range(n):
        add(i, i)
        for j in range(n):
            if S[i]['of'] == S[j]['of'] or tier == 'thorough':
                add(j, i)
        add((i * 7 + 5) % n, i)
        add((i * 11 + 3) % n, i)
    # ceremonies with the same backend
    cs = [i for i in range(n) if CEREMONY(S[i]['of'])]
    for x, i in enumerate(cs):
        for y, j in enumerate(cs):
            if tier == 'thorough' or (x + y) % 3 == 0 and not (
                    S[i]['of'] in HEAVY and S[j]['of'] in HEAVY):
                add(j, i)
    for i in range(n):
        if S[i]['of'] in HEAVY:
            continue
        add((i + 1) % n if S[i]['of'] == S[(i + 1) % n]['of'] else i, i, i)
        if tier == 'thorough':
            add((i + n // 2) % n, (i + n // 3) % n, i)
    return out


def run(c):
    calls = c.cfg['calls']
    shared = {}
    for i, s in enumerate(calls[:-1]):
        p = c.apart('before%d.' % i if i else 'before.', s['cfg'])
        p.shared = shared
        compose.module(s['of']).run(p)
    last = calls[-1]
    d = c.apart('', last['cfg'])
    d.check = c.check
    d.shared = shared
    compose.module(last['of']).run(d)
    c.reach('two-earlier' if len(calls) > 2 else 'one-earlier')
    c.reach('later-done')
