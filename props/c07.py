"""User presence always, user verification when required."""
from .common import *

ID = 'C07'
REQUIRED = SIDES + ('no-presence', 'no-verification')
BOUNDS = ('all values of the flags byte that agree with the layout of the '
          'authenticator data')
ASSUMPTIONS = ('everything else in the ceremony is honest',)


def configs(tier):
    return spread(tier, [{}], more={}) + [
        {'cer': 'get', 'opts': dict(Assertion.DEFAULTS, at=True,
                                    require_uv=u, ext=e)}
        for u in (False, True) for e in ('none', 'sent')]


def run(c):
    a = ceremony(c)
    f = c.bytes('flags', 1)
    at = getattr(a, 'at', a.o.get('at', False))
    ed = a.ext_map is not None
    c.assume((f[0] & (AT | ED)) == ((AT if at else 0) | (ED if ed else 0)))
    a.flags_fixed = f
    a.build()
    r = a.go()
    side(c, r)
    up, uv = (f[0] & UP) != 0, (f[0] & UV) != 0
    if r[0] == 'ok':
        c.check(up, 'accepted although the user was not present')
        if a.require_uv:
            c.check(uv, 'accepted although the user was not verified')
        return
    c.check(c.Not(c.And(up, c.Or(uv, not a.require_uv))),
            'rejected although the flags are as required')
    if is_error(c, r, 'UserPresenceError'):
        c.reach('no-presence')
        c.check(c.Not(up), 'UserPresenceError although the user was present')
    elif is_error(c, r, 'UserVerificationError'):
        c.reach('no-verification')
        c.check(c.And(a.require_uv, c.Not(uv)), 'UserVerificationError '
                'although the user was verified or need not be')
    else:
        c.check(False, 'missing flag reported as ' + type(r[1]).__name__)
