"""Origin parsing: scheme, host and port of the text, nothing dropped."""
from .common import *

ID = 'C04'
REQUIRED = ('free-accept', 'free-reject', 'honest-accept', 'port-accept',
            'port-reject', 'host-reject')
BOUNDS = ('texts http(s):// followed by up to 5 (thorough: 8) printable ASCII '
          'characters and wholly free texts of up to 8 (thorough: 10) '
          'printable ASCII characters; free schemes of up to 4 (thorough: 7) '
          'characters, http(s) with up to 2 (3) more; structured origins '
          'with hosts of up to '
          '6 and 70 (thorough: 24, 70 and 250) characters that may stand in '
          'the registered name of a URL, or bracketed addresses, and ports of '
          'up to 6 digits')
ASSUMPTIONS = ('texts are printable ASCII without blanks (33..126)',)
DEFAULT = {'http': 80, 'https': 443}


def configs(tier):
    deep = tier == 'thorough'
    out = []
    for scheme in ('https', 'http'):
        for n in range(0, 9 if deep else 6):
            out.append({'mode': 'rest', 'scheme': scheme, 'n': n})
        for k in ((1, 3, 6, 70) if not deep else (1, 2, 3, 4, 6, 10, 24, 70, 250)):
            for p in (None, 1, 2, 4, 5, 6):
                out.append({'mode': 'honest', 'scheme': scheme, 'k': k,
                            'p': p})
    for n in range(0, 11 if deep else 9):
        out.append({'mode': 'free', 'n': n})
    for n in range(1, 8 if deep else 5):
        out.append({'mode': 'scheme', 'n': n})
    for pre in ('http', 'https'):
        for n in (1, 2, 3) if deep else (1, 2):
            out.append({'mode': 'scheme', 'n': n, 'pre': pre})
    out.append({'mode': 'address'})
    return out


def lowered(c, codes):
    return [c.ite(c.ge_le(v, 65, 90), v + 32, v) for v in codes]


def regname(c, codes):
    """All of them may stand in the registered name of a URL."""
    return c.And(*[c.Or(c.ge_le(v, 48, 57), c.ge_le(v, 65, 90),
                        c.ge_le(v, 97, 122), c.one_of(v, b"-._~!$&'()*+,;=%"))
                   for v in codes])


def same(c, codes, other):
    if len(codes) != len(other):
        return False
    return c.And(*[a == b for a, b in zip(codes, other)])


def digits_value(c, codes):
    v = 0
    for d in codes:
        v = v * 10 + (d - 48)
    return v


def faithful(c, text, origin, mode):
    """The triple spells the text again, up to case, an explicit port and an
    empty query and fragment."""
    low = lowered(c, c.codes(text))
    scheme, host, port = origin.scheme, origin.hostname, origin.port
    c.check(c.Or(c.eq(scheme, 'http'), c.eq(scheme, 'https')),
            'scheme is neither http nor https')
    c.check(len(host) > 0, 'empty host accepted')
    hc = c.codes(host)
    c.check(c.And(*[c.Not(c.one_of(v, b'/?#')) for v in hc]),
            'host contains a path, query or fragment delimiter')
    c.check(c.And(port >= 0, port <= 65535), 'port out of range')
    head = c.codes(scheme) + [58, 47, 47] + hc
    c.check(len(low) >= len(head) and same(c, low[:len(head)], head),
            'scheme://host is not the beginning of the (lower-cased) text')
    rest = low[len(head):]
    variants = []
    default = c.ite(c.eq(scheme, 'http'), 80, 443)
    for tail in ([], [63], [35], [63, 35]):
        if len(tail) > len(rest):
            continue
        body = rest[:len(rest) - len(tail)]
        t = same(c, rest[len(body):], tail)
        if not body:
            variants.append(c.And(t, port == default))
        elif len(body) > 1:
            variants.append(c.And(
                t, body[0] == 58, *[c.ge_le(v, 48, 57) for v in body[1:]],
                port == digits_value(c, body[1:])))
    c.check(c.Or(*variants), 'the port is not the one in the text (or the '
            'default one), or something after the host was dropped')


def run(c):
    mode = c.cfg['mode']
    parse = c.M.parsers.parse_origin
    if mode == 'honest':
        scheme, k, p = c.cfg['scheme'], c.cfg['k'], c.cfg['p']
        host = c.text('host', k, 33, 126)
        c.assume(regname(c, c.codes(host)))
        text = scheme + '://' + host
        value = DEFAULT[scheme]
        if p is not None:
            port = c.text('port', p, 48, 57)
            text = text + ':' + port
            value = digits_value(c, c.codes(port))
        r = c.call(parse, text)
        note(c, r)
        c.reach('%s-%s' % ('honest' if p is None else 'port',
                           'accept' if r[0] == 'ok' else 'reject'))
        ok = c.ge_le(value, 0, 65535)
        if r[0] == 'ok':
            o = r[1]
            c.check(ok, 'port above 65535 accepted')
            c.check(c.eq(o.scheme, scheme), 'wrong scheme')
            c.check(same(c, c.codes(o.hostname), lowered(c, c.codes(host))),
                    'host is not the lower-cased host of the text')
            c.check(o.port == value, 'wrong port')
        else:
            c.check(c.Not(ok), 'well-formed origin rejected')
            c.check(is_error(c, r, 'OriginError'), 'not an OriginError')
        return
    if mode == 'address':
        host = c.choice('host', ['[::1]', '[2001:DB8::7]', '127.0.0.1',
                                 '[::ffff:1.2.3.4]'])
        port = c.choice('port', ['', ':8443', ':443', ':0'])
        scheme = c.choice('scheme', ['http', 'https'])
        r = c.call(parse, scheme + '://' + host + port)
        note(c, r)
        c.check(r[0] == 'ok', 'an address is rejected')
        if r[0] == 'ok':
            faithful(c, scheme + '://' + host + port, r[1], mode)
        return
    if mode == 'rest':
        text = c.cfg['scheme'] + '://' + c.text('rest', c.cfg['n'], 33, 126)
    elif mode == 'scheme':
        scheme = c.cfg.get('pre', '') + c.text('scheme', c.cfg['n'], 33, 126)
        tail = c.choice('rest', ['', ':81', '/'])
        text = scheme + '://a.b' + tail
    else:
        text = c.text('text', c.cfg['n'], 33, 126)
    r = c.call(parse, text)
    note(c, r)
    if r[0] == 'ok':
        c.reach('free-accept')
        faithful(c, text, r[1], mode)
    else:
        c.reach('free-reject')
        c.check(is_error(c, r, 'OriginError'), 'rejected with %s, not '
                'OriginError' % type(r[1]).__name__)
        if mode == 'rest':
            c.reach('host-reject')
            rest = c.codes(text)[len(c.cfg['scheme']) + 3:]
            if rest:
                c.check(c.Not(regname(c, rest)), 'a plain host name is '
                        'rejected')
        elif mode == 'scheme' and tail != '/':
            known = [c.codes(s) for s in ('http', 'https')]
            low = lowered(c, c.codes(scheme))
            c.check(c.Not(c.Or(*[same(c, low, k) for k in known])),
                    'a known scheme is rejected')
