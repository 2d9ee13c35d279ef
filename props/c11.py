"""RP resolution for assertions."""
from .common import *

ID = 'C11'
REQUIRED = ('accept', 'reject', 'none-reject', 'mismatch-reject')
BOUNDS = ('RP IDs of up to 5 (thorough: 20) characters, and of 70 '
          '(thorough: 130)')
ASSUMPTIONS = ('everything else in the ceremony is honest; the RP ID hash is '
               'that of the provided RP (or of the registered one)',)


def configs(tier):
    ns = [(5, 5), (5, 4), (0, 0), (1, 1), (0, 1), (70, 70)]
    if tier == 'thorough':
        ns += [(20, 20), (20, 19), (12, 12), (130, 130)]
    ex = [{'g': g, 'r': r} for g, r in ns]
    ex += [{'g': None, 'r': 5}, {'g': 5, 'r': None}, {'g': None, 'r': None},
           {'g': None, 'r': 0}, {'g': 0, 'r': None}]
    return spread(tier, ex, without=('rp',), which=('get',))


def run(c):
    T = c.M.types
    a = Assertion(c)

    def rp(name, n, icon):
        return None if n is None else T.PublicKeyCredentialRpEntity(
            name=name, id=c.text(name, n, 33, 126), icon=icon)
    g, reg = c.cfg['g'], c.cfg['r']
    a.rp_arg = rp('given', g, a.rp.icon)
    a.registered_rp = rp('registered', reg, a.icon)
    used = a.rp_arg or a.registered_rp
    if used is not None:
        a.rp_id_hash = c.sha256(used.id.encode('utf-8'))
    a.build()
    r = a.go()
    if used is None:
        c.reach('none-reject')
        verdict(c, r, False, 'no RP is known', 'RPNotFoundError')
        return
    cond = True
    if g is not None and reg is not None:
        cond = c.eq(a.rp_arg.id, a.registered_rp.id)
        c.reach('mismatch-' + ('accept' if r[0] == 'ok' else 'reject'))
    verdict(c, r, cond, 'the provided RP is not the registered one',
            'RPIDError')
    if r[0] == 'ok':
        call, = a.registrar.registered()
        c.check(c.eq(call[1]['rp'].id, used.id), 'another RP is reported to '
                'the registrar')
