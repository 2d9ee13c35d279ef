"""Expected extensions: each one has an output, whatever its value."""
from .common import *

ID = 'C08'
REQUIRED = SIDES + ('absent-map', 'falsy-accept')
BOUNDS = ('every single expected extension, pairs and triples of them '
          '(thorough: all triples), and five to nine at once with one '
          'missing, with symbolic presence of the expected ones and of two '
          'others; every kind of output value including empty and false ones')
ASSUMPTIONS = ('everything else in the ceremony is honest',)

# extension, falsy and truthy outputs
VALUES = {
    'APPID': ('appid', [False, True]),
    'TX_AUTH_SIMPLE': ('txAuthSimple', ['', 'ok']),
    'TX_AUTH_GENERIC': ('txAuthGeneric', [b'', b'\x00']),
    'AUTHN_SEL': ('authnSel', [False, True]),
    'EXTS': ('exts', [[], ['a']]),
    'UVI': ('uvi', [b'', b'\x01']),
    'LOC': ('loc', [{}, {'latitude': 0}]),
    'UVM': ('uvm', [[], [[0, 0, 0]]]),
    'BIOMETRIC_PERF_BOUNDS': ('biometricPerfBounds', [False, True]),
}
NAMES = list(VALUES)


def configs(tier):
    ex = [{'e': []}, {'e': None}]
    n = len(NAMES)
    for i in range(n):
        for falsy in (0, 1):
            ex.append({'e': [NAMES[i]], 'o': [NAMES[(i + 1) % n],
                                              NAMES[(i + 4) % n]],
                       'v': falsy})
    for i in range(n):
        ex.append({'e': [NAMES[i], NAMES[(i + 2) % n]],
                   'o': [NAMES[(i + 3) % n]], 'v': i % 2})
    if tier == 'thorough':
        for t in itertools.combinations(NAMES, 3):
            ex.append({'e': list(t), 'o': [], 'v': len(ex) % 2})
    else:
        for i in range(n):
            ex.append({'e': [NAMES[i], NAMES[(i + 3) % n],
                             NAMES[(i + 5) % n]], 'v': i % 2})
    ex += [{'e': NAMES[:5], 'v': 0}, {'e': NAMES[4:], 'v': 0},
           {'e': NAMES, 'v': 1}, {'e': NAMES, 'v': 0}]
    for i in (0, 3, 5):
        ex.append({'e': [NAMES[i]], 'v': 0, 'nomap': True})
    out = spread(tier, ex, without=('ext',))
    return out


def run(c):
    E = c.M.types.ExtensionIdentifier
    a = ceremony(c)
    e, v = c.cfg['e'], c.cfg.get('v', 0)
    names = (e or []) + c.cfg.get('o', [])
    present = {}
    if not c.cfg.get('nomap') and names:
        m = {}
        missing = c.choice('missing', [None] + names) \
            if len(names) > 4 else None
        for n in names:
            if len(names) > 4:
                present[n] = n != missing
                if present[n]:
                    m[VALUES[n][0]] = VALUES[n][1][v]
                continue
            present[n] = c.choice('has.' + n, [True, False])
            if present[n]:
                m[VALUES[n][0]] = VALUES[n][1][v]
        a.ext_map = m
    elif e is None:
        a.ext_map = {'appid': False}
    a.expected_extensions = None if e is None else \
        (frozenset if c.cfg.get('v') else set)(E[n] for n in e)
    a.build()
    r = a.go()
    side(c, r)
    cond = all(present.get(n, False) for n in e or [])
    if c.cfg.get('nomap'):
        c.reach('absent-map')
    if r[0] == 'ok' and e and v == 0:
        c.reach('falsy-accept')
    verdict(c, r, cond, 'an expected extension output is missing',
            'ExtensionError')
