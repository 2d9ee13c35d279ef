"""Origin: the client data origin is one of the expected origins."""
from .common import *

ID = 'C03'
REQUIRED = SIDES + ('pair-accept', 'pair-reject', 'raw-accept', 'raw-reject',
                    'empty-reject')
BOUNDS = ('up to 3 expected origins, or 21; hosts of up to 7 (thorough: 12) '
          'characters, equally long ones of 33 (thorough: 70), eleven pairs '
          'with other letters, and ports of up to 4 digits, symbolic on both '
          'sides; '
          'client origins https:// + 3 (thorough: 7) free printable ASCII '
          'characters, the expected host with up to 3 (thorough: 5) free '
          'characters around it or with a free port of up to 5 characters')
ASSUMPTIONS = ('everything else in the ceremony is honest',)
BASE = 'https://a.bc'
# hosts that some conversions take for the same
PAIRS = [('stra\xdfe', 'strasse'), ('\u017fs', 'ss'), ('\xe9', 'e\u0301'),
         ('\u03c2', '\u03c3'), ('\xe9', '\xc9'), ('b\xfccher', 'bucher'),
         ('b\xfccher', 'xn--bcher-kva'), ('\u0430bc', 'abc'),
         ('\uff41', 'a'), ('\ufb01', 'fi'), ('\u2460', '1')]


def configs(tier):
    deep = tier == 'thorough'
    ex = []
    # both hosts symbolic; forms of expectation and ports
    for form in ('str', 'list', 'tuple', 'set', 'many'):
        for scheme in ('https', 'http'):
            for pe, pc in ((None, None), (4, 4), (None, 3), (3, None),
                           (2, 2)):
                if pe == pc == 4 and form not in ('str', 'set') and not deep:
                    pc = 2
                ex.append({'mode': 'pair', 'form': form, 'scheme': scheme,
                           'other': 'https', 'pe': pe, 'pc': pc, 'k': 3})
    for k in ((5,) if not deep else (1, 2, 5, 8, 12)):
        ex.append({'mode': 'pair', 'form': 'str', 'scheme': 'https',
                   'other': 'https', 'pe': None, 'pc': None, 'k': k})
    for d in ((-1, 1, 4) if not deep else (-2, -1, 1, 2, 4, 5, 8)):
        ex.append({'mode': 'pair', 'form': 'list', 'scheme': 'https',
                   'other': 'https', 'pe': None, 'pc': None, 'k': 4 + d,
                   'ke': 4})
    for form in ('list', 'tuple', 'many', 'long'):
        for d in ((2, 3, -2) if not deep else (1, 2, 3, 4, 6, -1, -2, -4)):
            ex.append({'mode': 'pair', 'form': form, 'scheme': 'https',
                       'other': 'https', 'pe': None, 'pc': None, 'k': 4 + d,
                       'ke': 4})
    ex.append({'mode': 'pair', 'form': 'long', 'scheme': 'https',
               'other': 'https', 'pe': 4, 'pc': 4, 'k': 3})
    for k in ((33,) if not deep else (33, 50, 70)):
        ex.append({'mode': 'pair', 'form': 'str', 'scheme': 'https',
                   'other': 'https', 'pe': None, 'pc': None, 'k': k})
    for n in ((3,) if not deep else range(1, 8)):
        ex.append({'mode': 'raw', 'n': n})
    ps = [(0, 1), (0, 2), (0, 3), (1, 0), (2, 0), (1, 1)]
    if deep:
        ps += [(0, 4), (0, 5), (3, 0), (4, 0), (2, 1), (1, 2)]
    for p, s in ps:
        ex.append({'mode': 'raw', 'p': p, 's': s})
    for n in (3, 4, 5):
        ex.append({'mode': 'raw', 'port': n})
    for i in range(len(PAIRS)):
        ex.append({'mode': 'unicode', 'i': i})
    ex.append({'mode': 'empty'})
    ex.append({'mode': 'bad'})
    return spread(tier, ex, without=('origin',))


def host(c, name, k):
    h = c.text(name, k, 45, 122)
    for v in c.codes(h):
        c.assume(c.Or(c.ge_le(v, 48, 57), c.ge_le(v, 65, 90),
                      c.ge_le(v, 97, 122), v == 45, v == 46))
    return h


def lowered(c, text):
    return [c.ite(c.ge_le(v, 65, 90), v + 32, v) for v in c.codes(text)]


def equal(c, xs, ys):
    return len(xs) == len(ys) and c.And(*[a == b for a, b in zip(xs, ys)])


def port(c, name, n, scheme):
    """(text, value)"""
    if n is None:
        return '', {'https': 443, 'http': 80}[scheme]
    t = c.text(name, n, 48, 57)
    v = 0
    for d in c.codes(t):
        v = v * 10 + (d - 48)
    return ':' + t, v


def run(c):
    a = ceremony(c)
    mode = c.cfg['mode']
    if mode == 'pair':
        scheme, other = c.cfg['scheme'], c.cfg['other']
        ph, pv = port(c, 'port', c.cfg['pc'], scheme)
        h = host(c, 'host', c.cfg['k'])
        eh = host(c, 'expected_host', c.cfg.get('ke', c.cfg['k']))
        eph, epv = port(c, 'expected_port', c.cfg['pe'], other)
        a.members['origin'] = scheme + '://' + h + ph
        e = other + '://' + eh + eph
        form = c.cfg['form']
        cond = c.And(scheme == other,
                     equal(c, lowered(c, h), lowered(c, eh)), pv == epv)
        if form == 'str':
            a.expected_origin = e
        elif form == 'list':
            a.expected_origin = [e]
        elif form == 'tuple':
            a.expected_origin = ('https://q.example', e)
        elif form == 'set':
            a.expected_origin = ['http://q.example', e]
        elif form == 'long':
            a.expected_origin = ['https://q%d.example' % i
                                 for i in range(20)] + [e]
        else:
            eh2 = host(c, 'expected_host2', c.cfg['k'])
            a.expected_origin = [e, 'http://zz.example:8080',
                                 'http://' + eh2]
            cond = c.Or(cond, c.And(
                scheme == 'http', equal(c, lowered(c, h), lowered(c, eh2)),
                pv == 80))
    elif mode == 'raw':
        if 'n' in c.cfg:
            rest = c.text('rest', c.cfg['n'], 33, 126)
        elif 'port' in c.cfg:
            rest = 'a.bc:' + c.text('port', c.cfg['port'], 48, 58)
        else:
            rest = c.text('prefix', c.cfg['p'], 33, 126) + 'a.bc' + \
                c.text('suffix', c.cfg['s'], 33, 126)
        a.members['origin'] = 'https://' + rest
        a.before_origin = (a.members['origin'], a.members['origin'])
        a.expected_origin = BASE
        low = lowered(c, rest)
        want = list(b'a.bc')
        cond = False
        if len(low) >= 4:
            head = equal(c, low[:4], want)
            tails = []
            for e in ([], [63], [35], [63, 35]):
                body = low[4:len(low) - len(e)]
                if len(e) > len(low) - 4:
                    continue
                t = equal(c, low[len(low) - len(e):], e)
                if not body:
                    tails.append(t)
                elif len(body) >= 4:
                    tails.append(c.And(
                        t, body[0] == 58, equal(c, body[-3:], list(b'443')),
                        *[v == 48 for v in body[1:-3]]))
            cond = c.And(head, c.Or(*tails))
        exact = len(low) == 4 and equal(c, c.codes(rest), want)
        a.build()
        r = a.go()
        side(c, r)
        c.reach('raw-' + ('accept' if r[0] == 'ok' else 'reject'))
        if r[0] == 'ok':
            c.check(cond, 'accepted a client origin other than the expected '
                    'one')
        else:
            c.check(c.Not(exact), 'the expected origin itself is rejected')
            c.check(is_error(c, r, 'OriginError'), 'origin mismatch reported '
                    'as ' + type(r[1]).__name__)
        return
    elif mode == 'unicode':
        p, q = PAIRS[c.cfg['i']]
        if c.choice('swap', [False, True]):
            p, q = q, p
        t = c.text('tail', 3, 97, 122)
        a.members['origin'] = 'https://' + p + '.' + t
        a.expected_origin = ['https://' + q + '.' + t]
        cond = p.lower() == q.lower()
    elif mode == 'empty':
        a.expected_origin = c.choice('none', [[], (), set(), ''])
        cond = False
    else:
        a.expected_origin = [ORIGIN, c.choice('bad', [
            'example.com', 'ftp://example.com', 'https://', 'https:///',
            'https://example.com/path', 'https://e.com:x'])]
        cond = False
    if mode == 'pair' and c.cfg.get('form') != 'many':
        # earlier, the client's origin was the expected one
        a.before_origin = (a.members['origin'], a.members['origin'])
    a.build()
    r = a.go()
    side(c, r)
    c.reach('%s-%s' % (mode, 'accept' if r[0] == 'ok' else 'reject'))
    verdict(c, r, cond, 'the client origin is not among the expected ones',
            'OriginError')
