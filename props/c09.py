"""allow_credentials: the credential is one of those allowed."""
from .common import *

ID = 'C09'
REQUIRED = ('accept', 'reject', 'empty-reject')
BOUNDS = ('up to 3 (thorough: 5) descriptors, also 18 and 40, with ids of up '
          'to 8 bytes and of 16 to 1030 bytes (40 of them symbolic beyond '
          '150); descriptors without a matching id of any of several '
          'lengths')
ASSUMPTIONS = ('everything else in the ceremony is honest',)


def configs(tier):
    ex = [{'lens': ls} for ls in (
        [8], [8, 8], [8, 8, 8], [], [7], [9, 8], [8, 0], [0, 7, 9])]
    if tier == 'thorough':
        ex += [{'lens': ls} for ls in (
            [8] * 4, [8] * 5, [1, 8, 16, 8], [33, 8])]
    ex += [{'lens': [0], 'n': 0}, {'lens': [1, 0], 'n': 1},
           {'lens': [16, 16], 'n': 16}]
    ex += [{'lens': [n, n - 1, n], 'n': n} for n in (
        (33, 65, 130, 300, 1030) if tier == 'quick' else
        (17, 33, 64, 65, 128, 129, 130, 256, 300, 1024, 1030))]
    ex += [{'lens': [8] * 18}, {'lens': [3, 8] * 20}]
    return spread(tier, ex, without=('allow',), which=('get',))


def run(c):
    o = dict(c.cfg['opts'])
    o['raw_id_len'] = c.cfg.get('n', 8)
    a = Assertion(c, o)
    T = c.M.types
    ids = [some_bytes(c, 'allowed%d' % i, n) for i, n in enumerate(c.cfg['lens'])]
    a.allow = [T.PublicKeyCredentialDescriptor(
        type=T.PublicKeyCredentialType.PUBLIC_KEY, id=i,
        transports=(None, [T.AuthenticatorTransport.USB], [])[j % 3])
        for j, i in enumerate(ids)]
    a.build()
    r = a.go()
    if not ids:
        c.reach('empty-reject')
    verdict(c, r, c.Or(*[c.eq(i, a.raw_id) for i in ids]),
            'the credential is not among the allowed ones',
            'CredentialNotAllowedError')
