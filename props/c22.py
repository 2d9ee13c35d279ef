"""Extension outputs: only registered extensions with outputs of their type
are accepted, and each is kept."""
from .common import *

ID = 'C22'
REQUIRED = ('accept', 'reject', 'key-reject', 'all', 'via-auth')
BOUNDS = ('all nine extensions at once, or up to two of them with outputs of '
          'any type; lists of up to 10 elements; one extra key of up to 19 '
          'characters; texts and byte strings of 3')
ASSUMPTIONS = ()

EXTS = {'appid': 'appid', 'txAuthSimple': 'tx_auth_simple',
        'txAuthGeneric': 'tx_auth_generic', 'authnSel': 'authn_sel',
        'exts': 'exts', 'uvi': 'uvi', 'loc': 'loc', 'uvm': 'uvm',
        'biometricPerfBounds': 'biometric_perf_bounds'}
COORDS = {'latitude': 'latitude', 'longitude': 'longitude',
          'altitude': 'altitude', 'accuracy': 'accuracy',
          'altitudeAccuracy': 'altitude_accuracy', 'heading': 'heading',
          'speed': 'speed'}
ODD = [None, 0, 1, True, False, 1.5, b'', b'x', '', 'x', [], ['a'], [b'a'],
       [1], [[1]], [[1, True]], [['a']], [[1], 2], ['a', 1], ['a', None], {},
       {'latitude': 1.5}, {'latitude': 'x'}, {'latitude': True},
       {'bogus': 1.5}, {1: 2}, [[]], [[1, 2, 3, 'x']], [[1, 2, 3, 4, None]],
       [[1, 2, 3]] * 4 + [[1.5]], [[1, 2, 3]] * 4 + ['x'],
       ['a'] * 9 + [b''], [''], ['', '']]


def configs(tier):
    out = [{'mode': 'all', 'without': None, 'via': False}]
    out += [{'mode': 'all', 'without': e, 'via': False} for e in EXTS]
    for e in EXTS:
        out.append({'mode': 'vary', 'vary': [e]})
        out.append({'mode': 'rich', 'e': e, 'via': True})
    ps = list(itertools.combinations(EXTS, 2))
    out += [{'mode': 'vary', 'vary': list(p)}
            for p in (ps if tier == 'thorough' else ps[::4])]
    out += [{'mode': 'key', 'n': n} for n in (0, 1, 3, 4, 5, 8, 12, 13, 19)]
    out += [{'mode': 'coord', 'n': n} for n in (0, 5, 7, 8, 9, 16)]
    out += [{'mode': 'subset'}]
    return out


def value(c, e):
    """A well-formed output."""
    if e in ('appid', 'authnSel', 'biometricPerfBounds'):
        return c.choice('v.' + e, [True, False])
    if e == 'txAuthSimple':
        return c.text('v.' + e, 3, 0, 0xffff)
    if e in ('txAuthGeneric', 'uvi'):
        return c.bytes('v.' + e, 3)
    if e == 'exts':
        return [c.text('v.exts%d' % i, 2, 32, 126)
                for i in range(c.choice('n.exts', [0, 1, 3, 9]))] + c.choice(
                    'tail.exts', [[], ['']])
    if e == 'uvm':
        return [[c.int('v.uvm%d%d' % (i, j), 0, 1000) for j in range(m)]
                for i, m in enumerate(c.choice('n.uvm', [[], [3], [2, 3],
                                                         [0, 1, 2], [5, 0]]))]
    names = c.choice('n.loc', [[], list(COORDS), ['heading'],
                               ['latitude', 'altitudeAccuracy', 'speed']])
    return {n: c.int('v.loc.' + n, -180, 180) if i % 2 == 0 else 1.25 + i
            for i, n in enumerate(names)}


def good_value(c, e, v):
    k = v.__class__
    if v is None:
        return True
    if e in ('appid', 'authnSel', 'biometricPerfBounds'):
        return k is bool
    if e == 'txAuthSimple':
        return k is str
    if e in ('txAuthGeneric', 'uvi'):
        return k is bytes
    if e == 'exts':
        return k in (list, tuple) and all(x.__class__ is str for x in v)
    if e == 'uvm':
        return k is list and all(x.__class__ is list and all(
            y.__class__ is int for y in x) for x in v)
    return k is dict and all(n in COORDS for n in v) and all(
        x.__class__ in (int, float) for x in v.values())


def same(c, a, b):
    if a.__class__ in (list, tuple) and b.__class__ in (list, tuple):
        return len(a) == len(b) and c.And(*[same(c, x, y)
                                            for x, y in zip(a, b)])
    return c.eq(a, b)


def run(c):
    cfg = c.cfg
    mode = cfg['mode']
    via = cfg.get('via', False)
    d, good, arg = {}, True, None
    if mode == 'all':
        for e in EXTS:
            if e != cfg['without']:
                d[e] = value(c, e)
    elif mode == 'rich':
        d[cfg['e']] = value(c, cfg['e'])
    elif mode == 'subset':
        d = {'appid': True, 'uvi': c.bytes('v.uvi', 3),
             'exts': ['a'], 'biometricPerfBounds': False}
        arg = c.dict([(k, 'has.' + k, (lambda v: lambda: v)(v))
                      for k, v in d.items()])
        for k in list(d):
            if not c.bool('has.' + k):
                del d[k]
    elif mode == 'vary':
        for e in cfg['vary']:
            d[e] = c.choice('odd.' + e, ODD)
        good = all(good_value(c, e, v) for e, v in d.items())
    elif mode == 'key':
        k = c.text('key', cfg['n'], 32, 126)
        arg = c.dict([('appid', True, True), (k, True, c.choice(
            'v', [True, None, 'x']))])
        for e in EXTS:
            c.assume(c.Not(c.eq(k, e)))
        good = False
    elif mode == 'coord':
        k = c.text('key', cfg['n'], 32, 126)
        v = c.choice('v', [1, 1.5])
        good = c.Or(*[c.eq(k, n) for n in COORDS])
        arg = {'loc': c.dict([(k, True, v)])}
    if arg is None:
        arg = d
    if via:
        data = c.bytes('head', 32) + b'\x85' + bytes(4) + c.cbor_encode(arg)
        r = c.call(c.M.parsers.parse_authenticator_data, data)
        c.reach('via-auth')
    else:
        r = c.call(c.M.parsers.parse_extensions, arg)
    note(c, r)
    if mode == 'key':
        c.reach('key-' + ('accept' if r[0] == 'ok' else 'reject'))
    if r[0] == 'err':
        c.check(c.Not(good), 'well-formed extension outputs are rejected '
                'with ' + type(r[1]).__name__)
        c.check(is_error(c, r, 'ParserError'), 'malformed extension outputs '
                'are reported as ' + type(r[1]).__name__)
        return
    c.check(good, 'malformed extension outputs are accepted')
    x = r[1].extensions if via else r[1]
    if mode == 'all' and cfg['without'] is None:
        c.reach('all')
    if mode == 'coord':
        for n, at in COORDS.items():
            got = getattr(x.loc, at)
            if c.eq(k, n):
                c.check(got == v, 'coordinate is lost')
            else:
                c.check(got is None, 'a coordinate appears from nowhere')
        return
    for e, at in EXTS.items():
        v, got = d.get(e), getattr(x, at)
        if v is None:
            c.check(got is None, 'output of %s appears from nowhere' % e)
        elif e == 'loc':
            for n, ca in COORDS.items():
                w, g = v.get(n), getattr(got, ca)
                c.check(g is None if w is None else c.eq(g, w),
                        'coordinate is not kept: ' + n)
        else:
            c.check(same(c, got, v), 'output of %s is not kept' % e)
