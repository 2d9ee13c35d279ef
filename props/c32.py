"""Text utilities: base64url as RFC 4648 section 5 has it, with and without
padding; names between snake and camel case, there and back."""
from .common import *

ID = 'C32'
REQUIRED = ('encode', 'decode', 'decode-bad', 'decode-other', 'snake',
            'camel', 'round', 'member', 'curve', 'hash')
BOUNDS = ('bytes of 0..12, 33, 48, 50, 64 and 100 (thorough: also 13..40, 96, 128 '
          'and 255), base64url texts of 0..12 '
          '(thorough: 0..24) characters, names of 0..6 (thorough: 0..8) '
          'letters, digits and underscores')
ASSUMPTIONS = ()
BUDGET = {'quick': 150, 'thorough': 740}
ALPHABET = 'ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_'


def configs(tier):
    deep = tier == 'thorough'
    out = []
    for n in list(range(41)) + [64, 96, 128, 255] if deep else list(
            range(13)) + [33, 48, 50, 64, 100]:
        out.append({'mode': 'encode', 'n': n})
    for n in range(25 if deep else 13):
        out.append({'mode': 'decode', 'n': n})
    for n in range(1, 6 if deep else 4):
        out.append({'mode': 'other', 'n': n})
    for n in range(9 if deep else 7):
        out.append({'mode': 'snake', 'n': n})
        out.append({'mode': 'camel', 'n': n})
        if n:
            out.append({'mode': 'round', 'n': n})
    out.append({'mode': 'member'})
    return out


def lower(c, x):
    return c.And(x >= 97, x <= 122)


def upper(c, x):
    return c.And(x >= 65, x <= 90)


def run(c):
    cfg = c.cfg
    mode, n = cfg['mode'], cfg.get('n')
    U = c.M.utils
    if mode == 'encode':
        b = c.bytes('b', n)
        r = c.call(U.url_base64_encode, b)
        c.check(r[0] == 'ok', 'bytes that cannot be encoded')
        c.check(c.eq(r[1], c.url64(b).encode('ascii')), 'the encoding is not '
                'padded base64url')
        c.reach('encode')
        for pad in (True, False):
            r = c.call(U.url_base64_decode, c.url64(b, pad))
            c.check(r[0] == 'ok' and c.eq(r[1], b), 'decoding the encoding '
                    '(%s) gives other bytes' % ('padded' if pad else
                                                'not padded'))
        return
    if mode == 'decode':
        # every text over the alphabet; the value by its bits
        t = c.text('t', n, 0x2d, 0x7a)
        xs = c.codes(t)
        vs = []
        for x in xs:
            up, lo = upper(c, x), lower(c, x)
            dg = c.And(x >= 48, x <= 57)
            c.assume(c.Or(up, lo, dg, x == 45, x == 95))
            vs.append(c.ite(up, x - 65, c.ite(lo, x - 71, c.ite(
                dg, x + 4, c.ite(x == 45, 62, 63)))))
        r = c.call(U.url_base64_decode, t)
        c.outcome(r[0])
        if n % 4 == 1:
            c.reach('decode-bad')
            c.check(r[0] == 'err' and isinstance(r[1], ValueError),
                    'bytes from a text that encodes none')
            return
        c.reach('decode')
        c.check(r[0] == 'ok', 'a base64url text is not decoded')
        m = n * 6 // 8
        c.check(len(r[1]) == m, 'other length')
        for i in range(m):
            k, o = divmod(8 * i, 6)
            w = (vs[k] << 6) | vs[k + 1]
            # bits o .. o+7 of the 12 (or 18) bit window
            if o + 8 <= 12:
                v = (w >> (12 - o - 8)) & 255
            else:
                v = (((w << 6) | vs[k + 2]) >> (18 - o - 8)) & 255
            c.check(c.And(r[1][i] == v), 'byte %d of a decoded text' % i)
        return
    if mode == 'other':
        # text that is not ASCII never decodes
        t = c.text('t', n)
        c.assume(c.Or(*[x >= 128 for x in c.codes(t)]))
        r = c.call(U.url_base64_decode, t)
        c.outcome(r[0])
        c.reach('decode-other')
        c.check(r[0] == 'err' and isinstance(r[1], ValueError),
                'bytes from a text that is not ASCII')
        return
    if mode == 'member':
        T = c.M.types
        e = c.choice('ext', list(T.ExtensionIdentifier))
        r = c.call(lambda: e.key)
        c.reach('member')
        c.check(r[0] == 'ok', 'no key')
        for cls in (T.AuthenticationExtensionsClientInputs,
                    T.AuthenticationExtensionsClientOutputs):
            o = cls()
            c.check(hasattr(o, r[1]), 'no member of extension inputs or '
                    'outputs named ' + str(r[1]))
        c.check(r[1] == e.name.lower(), 'the key of an extension is not its '
                'name')
        r = c.call(U.snake_to_camel_case, r[1])
        c.check(r[0] == 'ok' and r[1] == e.value, 'the key of an extension '
                'leads to another extension')
        crv = c.choice('crv', [x for E in (T.EC2Curve, T.OKPCurve)
                               for S in (E.Name, E.Value) for x in S])
        want = {'P_256': 32, 'P_384': 48, 'P_521': 66, 'ED25519': 32,
                'ED448': 57}
        r = c.call(U.curve_coordinate_byte_length, crv)
        if crv.name in want:
            c.reach('curve')
            c.check(r[0] == 'ok' and r[1] == want[crv.name],
                    'length of the coordinates of ' + crv.name)
        else:
            c.check(r[0] == 'err', 'a length for an unsupported curve')
        A = T.COSEAlgorithmIdentifier
        alg = c.choice('alg', list(A.Name) + list(A.Value))
        want = {'ES256': 'sha256', 'ES384': 'sha384', 'ES512': 'sha512'}
        r = c.call(U.ec2_hash_algorithm, alg)
        if alg.name in want:
            c.reach('hash')
            c.check(r[0] == 'ok' and r[1].name == want[alg.name],
                    'hash of ' + alg.name)
        else:
            c.check(r[0] == 'err', 'a hash for ' + alg.name)
        return
    t = c.text('t', n, 48, 122)
    xs = c.codes(t)
    under = []
    for i, x in enumerate(xs):
        up, lo = upper(c, x), lower(c, x)
        dg = c.And(x >= 48, x <= 57)
        if mode == 'camel':
            c.assume(c.Or(lo, dg, up) if i else lo)
        elif mode == 'round':
            # canonical names: letters after every underscore
            c.assume(c.Or(lo, dg, x == 95) if 0 < i < n - 1 else
                     c.Or(lo, dg) if i else lo)
            if i:
                c.assume(c.Or(xs[i - 1] != 95, lo))
        else:
            c.assume(c.Or(up, lo, dg, x == 95))
    if mode == 'round':
        c.reach('round')
        r = c.call(U.snake_to_camel_case, t)
        c.check(r[0] == 'ok', 'snake_to_camel_case fails')
        r = c.call(U.camel_to_snake_case, r[1])
        c.check(r[0] == 'ok' and c.eq(r[1], t), 'a snake case name does not '
                'survive the way to camel case and back')
        return
    want = []
    if mode == 'snake':
        start = False
        for x in xs:
            if x == 95:
                start = True
                continue
            want.append(c.ite(lower(c, x), x - 32, x)
                        if start and want else x)
            start = False
        r = c.call(U.snake_to_camel_case, t)
    else:
        for x in xs:
            if bool(upper(c, x)):
                want += [95, x + 32]
            else:
                want.append(x)
        r = c.call(U.camel_to_snake_case, t)
    c.reach(mode)
    c.check(r[0] == 'ok' and len(r[1]) == len(want) and c.And(*[
        y == w for y, w in zip(c.codes(r[1]), want)]),
        'wrong %s case' % ('camel' if mode == 'snake' else 'snake'))
