"""Ceremony type: an assertion is only accepted over client data of type
webauthn.get and a registration only over webauthn.create."""
from .common import *

ID = 'C01'
REQUIRED = SIDES
BOUNDS = ("client data type texts of 0 and 11-16 characters (thorough: 0-25 "
          "and 40) and 100, any Unicode scalar values")
ASSUMPTIONS = ('everything else in the ceremony is honest',)


def configs(tier):
    ns = [12, 15, 0, 11, 13, 14, 16]
    if tier == 'thorough':
        ns = list(range(0, 26)) + [40]
    ns += [100]
    return spread(tier, [{'n': n} for n in ns])


def run(c):
    a = ceremony(c)
    t = c.text('type', c.cfg['n'])
    a.members['type'] = t
    a.build()
    r = a.go()
    side(c, r)
    verdict(c, r, c.eq(t, a.TYPE), 'the client data type is not that of the '
            'ceremony', 'ClientDataTypeError')
