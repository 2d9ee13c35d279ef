"""Signature counter: a counter that does not grow signals a clone."""
from .common import *

ID = 'C13'
REQUIRED = ('accept', 'reject', 'both-zero', 'ignored')
BOUNDS = 'all 32-bit stored and presented counters'
ASSUMPTIONS = ('everything else in the ceremony is honest',)


def configs(tier):
    ex = [{'stored': s} for s in (True, False)]
    out = spread(tier, ex, without=('counter', 'ignore_clone'),
                 which=('get',))
    for i, r in enumerate(Assertion.rows('quick', without=(
            'counter', 'ignore_clone'))):
        for st in (True, False):
            for ig in (True, False):
                if i < 4 or tier == 'thorough':
                    out.append({'cer': 'get', 'stored': st, 'opts': dict(
                        r, ignore_clone=ig)})
    return out


def run(c):
    a = Assertion(c)
    stored = c.int('stored_count', 0, 2 ** 32 - 1) if c.cfg['stored'] \
        else None
    a.signature_count = stored
    a.o['counter'] = 'none'
    a.build()
    r = a.go()
    new = a.count_value
    cond = True
    if stored is not None:
        zero = c.And(stored == 0, new == 0)
        cond = c.Or(a.ignore_clone, zero, new > stored)
        if r[0] == 'ok':
            if a.ignore_clone:
                c.reach('ignored')
            elif zero:
                c.reach('both-zero')
    verdict(c, r, cond, 'the signature counter did not grow',
            'SignatureCountError')
    calls = a.registrar.registered()
    if r[0] == 'ok':
        c.check(len(calls) == 1, 'not registered')
        c.check(calls[0][1]['authenticator_data'].sign_count == new,
                'another counter than the presented one is reported to the '
                'registrar')
    else:
        c.check(len(calls) == 0, 'a suspected clone is registered')
