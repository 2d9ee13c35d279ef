"""Challenge: the decoded client data challenge is the expected challenge."""
from .common import *

ID = 'C02'
REQUIRED = SIDES + ('text-accept', 'text-reject', 'text-undecodable',
                    'padded-accept', 'length-reject')
BOUNDS = ('challenges of up to 64 bytes, against expected challenges of the same '
          'and of other lengths of up to 65 bytes; challenge texts of up to 8 '
          'and of 64, 66 and 67 (thorough: up to 24 and 62 to 88) base64url '
          'characters; '
          'arbitrary printable texts without = of up to 4 (thorough: 6) '
          'characters')
ASSUMPTIONS = ('everything else in the ceremony is honest',)

def configs(tier):
    out = spread(tier, [{'mode': 'same'}])
    deep = tier == 'thorough'
    ex = [{'mode': 'length', 'm': m} for m in (0, 1, 15, 17, 32)]
    ex += [{'mode': 'length', 'k': k, 'm': m} for k, m in (
        (49, 48), (48, 49), (33, 32), (64, 65), (65, 64), (64, 32), (0, 1),
        (1, 0), (64, 0))]
    ex += [{'mode': 'padded', 'm': m} for m in
           ((1, 2, 3, 16) if not deep else range(1, 34))]
    ex += [{'mode': 'alpha', 'n': n} for n in
           ((0, 1, 2, 3, 4, 5, 6, 7, 8, 64, 66, 67) if not deep else
            [*range(25), *range(62, 70), 86, 88])]
    # the expected challenge is as long as the text
    ex += [{'mode': 'alpha', 'n': n, 'm': n} for n in
           ((1, 2, 5, 16, 17) if not deep else range(1, 26))]
    ex += [{'mode': 'text', 'n': n} for n in
           ((1, 2, 3, 4) if not deep else (1, 2, 3, 4, 5, 6))]
    rows = {k: v.rows('quick') for k, v in CEREMONIES.items()}
    for i, e in enumerate(ex):
        for cer in rows:
            out.append(dict(e, cer=cer, opts=rows[cer][i % len(rows[cer])]))
    return out


def sextet(c, v):
    """The sextet of a base64url character with code point v."""
    return c.ite(c.ge_le(v, 65, 90), v - 65, c.ite(
        c.ge_le(v, 97, 122), v - 71, c.ite(
            c.ge_le(v, 48, 57), v + 4, c.ite(v == 45, 62, 63))))


def in_alphabet(c, v):
    return c.Or(c.ge_le(v, 65, 90), c.ge_le(v, 97, 122), c.ge_le(v, 48, 57),
                v == 45, v == 95)


def decoded_is(c, text, want):
    """The 6-bit groups of text spell the bytes of want."""
    n = len(text)
    if n % 4 == 1 or n * 6 // 8 != len(want):
        return False
    acc = [sextet(c, v) for v in text]
    conds = []
    for i in range(len(want)):
        bit = i * 8
        j, off = bit // 6, bit % 6
        two = (acc[j] << 6) | (acc[j + 1] if j + 1 < n else 0)
        conds.append(((two >> (4 - off)) & 255) == want[i])
    return c.And(*conds)


def run(c):
    a = ceremony(c)
    mode = c.cfg['mode']
    if mode in ('same', 'length', 'padded'):
        m = c.cfg.get('m', len(a.challenge))
        if 'k' in c.cfg:
            a.challenge = c.bytes('ch', c.cfg['k'])
        if mode == 'padded':
            a.challenge = c.bytes('ch', m)
        want = c.bytes('expected', m)
        a.members['challenge'] = lambda: c.url64(a.challenge,
                                                 pad=mode == 'padded')
        cond = c.eq(a.challenge, want)
        errors = ('ChallengeError',)
    else:
        n = c.cfg['n']
        text = c.text('text', n, 33, 126)
        clean = []
        if mode == 'alpha':
            for v in c.codes(text):
                c.assume(in_alphabet(c, v))
                clean.append(v)
        else:
            for v in c.codes(text):
                c.assume(c.Not(c.one_of(v, b'=+/')))
                if in_alphabet(c, v):
                    clean.append(v)
        a.members['challenge'] = text
        want = c.bytes('expected', c.cfg.get('m', len(clean) * 6 // 8))
        cond = decoded_is(c, clean, want)
        errors = ('ChallengeError', 'DecodingError') if cond is False or \
            len(clean) < n else ('ChallengeError',)
        if len(clean) < n:
            # characters outside the alphabet: rejecting is fine, too
            a.expected_challenge = want
            a.build()
            r = a.go()
            side(c, r)
            if r[0] == 'ok':
                c.check(cond, 'accepted although the challenge differs')
            else:
                c.check(is_error(c, r, *errors), 'a challenge with characters '
                        'outside base64url is reported as %s' %
                        type(r[1]).__name__)
            return
    a.expected_challenge = want
    a.build()
    r = a.go()
    side(c, r)
    tag = {'alpha': 'text', 'same': 'same'}.get(mode, mode)
    c.reach('%s-%s' % (tag, 'accept' if r[0] == 'ok' else 'reject'))
    if mode == 'alpha' and c.cfg['n'] % 4 == 1:
        c.reach('text-undecodable')
    verdict(c, r, cond, 'the decoded challenge is not the expected one',
            *errors)
