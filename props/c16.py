"""Honest ceremonies succeed."""
from .common import *

ID = 'C16'
REQUIRED = ('get', 'create')
BOUNDS = ('every pair (thorough: triple) of option settings of a ceremony, '
          'with all challenges, identifiers, counters, free flag bits and '
          'signatures symbolic; keys of all five kinds; credential ids of '
          '0..1024 bytes (40 symbolic beyond 150); one to 31 expected origins of which others are '
          'prefixes, superstrings or of other schemes and ports; after another '
          'ceremony on the same backend')
ASSUMPTIONS = ('signature verification is an uninterpreted predicate',)


def configs(tier):
    out = []
    for cer, cls in CEREMONIES.items():
        more = {'kind': list(KINDS),
                'raw_id_len': [8, 0, 1, 64, 255, 256, 257, 1023, 1024],
                'challenge_len': [16, 32, 1, 400]}
        if cer == 'get':
            more['at'] = [False, True]
        for r in cls.rows(tier, more=more,
                          strength=2 if tier == 'quick' else 3):
            out.append({'cer': cer, 'opts': r})
    # several expected origins, related in every way
    for cer in CEREMONIES:
        for i in range(6):
            out.append({'cer': cer, 'origins': i,
                        'opts': CEREMONIES[cer].rows('quick')[i]})
        for b in BEFORE:
            out.append({'cer': cer, 'before': b,
                        'opts': CEREMONIES[cer].rows('quick')[3]})
    return out


def origins(c, i):
    t = c.text('origin', 4, 97, 122)
    u = c.text('other_origin', 4, 97, 122)
    a, b = 'https://' + t, 'https://' + u
    return [
        (a, [b, a]), (a, (a, b)),
        (a + '.org', [a, a + '.org']), (a, ['http://' + t, a]),
        (a + ':8443', [a, a + ':8443', a + ':844']),
        (a, ['https://www.' + t, a + '.a', a, a + ':1', b]),
    ][i]


def run(c):
    a = ceremony(c)
    if 'origins' in c.cfg:
        a.members['origin'], a.expected_origin = origins(c, c.cfg['origins'])
    a.build()
    r = a.go()
    c.reach(c.cfg['cer'])
    c.check(r[0] == 'ok', 'an honest ceremony fails with ' +
            type(r[1]).__name__)
    c.check(r[1] is None, 'the result is not None')
    c.check(len(a.registrar.registered()) == 1, 'not registered exactly once')
