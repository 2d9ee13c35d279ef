"""Formats without an attester never register anything; format none registers
with attestation type None and without a trusted path."""
from .c21 import ALL_SHAPES, SHAPES, value
from .common import *

ID = 'C26'
REQUIRED = ('none', 'unsupported', 'none-nonempty', 'flag-missing')
BOUNDS = ('every statement shape of packed, tpm and android-safetynet with '
          'symbolic members; registrations under the option rows of the other '
          'properties; attested data flag clear or set')
ASSUMPTIONS = ('everything else in the ceremony is honest',)


def configs(tier):
    out = []
    rows = Registration.rows(tier, without=('fmt',))
    for i, s in enumerate(x for x in ALL_SHAPES if SHAPES[x][0] in (
            'packed', 'tpm', 'android-safetynet')):
        for j in range(len(rows) if tier == 'thorough' else 4):
            out.append({'mode': 'unsupported', 'shape': s,
                        'opts': rows[(4 * i + j) % len(rows)]})
        out.append({'mode': 'direct', 'shape': s})
    for o in rows:
        out.append({'mode': 'none', 'opts': o})
    for m in ('alg', 'sig', 'x5c', 'ver', 'response'):
        out.append({'mode': 'nonempty', 'm': m, 'opts': rows[0]})
    for fmt in ('none', 'fido-u2f', 'android-key'):
        out.append({'mode': 'noat', 'opts': dict(rows[0], fmt=fmt)})
    out.append({'mode': 'direct', 'shape': 'none'})
    return out


def run(c):
    cfg = c.cfg
    mode = cfg['mode']
    T = c.M.types
    if mode == 'direct':
        s = cfg['shape']
        fmt, ms = SHAPES[s]
        ao = c.call(c.M.parsers.parse_attestation_object, c.cbor(
            'ao', lambda c: {'fmt': fmt, 'attStmt': {
                m: value(c, m) for m in ms}, 'authData': bytes(37)}))
        c.check(ao[0] == 'ok', 'the statement is not parsed')
        o = ao[1][0]
        r = c.call(c.M.attesters.attest, o.att_stmt, o, bytes(37),
                   c.bytes('hash', 32))
        note(c, r)
        if s == 'none':
            c.check(r[0] == 'ok' and r[1][0] == T.AttestationType.NONE and
                    r[1][1] is None, 'attesting none is not (NONE, None)')
        else:
            c.check(is_error(c, r, 'UnimplementedError'), 'a format without '
                    'an attester is not an UnimplementedError')
        return
    fmt = 'none'
    if mode == 'unsupported':
        fmt, ms = SHAPES[cfg['shape']]
    a = Registration(c, dict(cfg['opts'], **(
        {} if mode == 'noat' else {'fmt': fmt})))
    if mode == 'unsupported':
        a.fmt = fmt
        a.stmt = {m: value(c, m) for m in ms}
    elif mode == 'nonempty':
        a.stmt = {cfg['m']: value(c, cfg['m'])}
    elif mode == 'noat':
        a.at = False
    a.build()
    r = a.go()
    calls = a.registrar.registered()
    if mode == 'none':
        c.reach('none')
        c.check(r[0] == 'ok', 'registration with format none fails')
        c.check(len(calls) == 1, 'not registered once')
        x = calls[0][1]
        c.check(x['att_type'] == T.AttestationType.NONE,
                'wrong attestation type for none')
        c.check(x['trusted_path'] is None, 'a trusted path for none')
        c.check(x['att'].fmt ==
                T.AttestationStatementFormatIdentifier.NONE, 'wrong format')
        return
    c.check(r[0] == 'err', 'registration is accepted without attestation')
    c.check(not calls, 'registered without attestation')
    if mode == 'unsupported':
        c.reach('unsupported')
        c.check(is_error(c, r, 'UnimplementedError'), 'a format without an '
                'attester is reported as ' + type(r[1]).__name__)
    elif mode == 'nonempty':
        c.reach('none-nonempty')
        c.check(is_error(c, r, 'ParserError'), 'a statement for none is '
                'reported as ' + type(r[1]).__name__)
    else:
        c.reach('flag-missing')
        c.check(isinstance(r[1], c.M.errors.WebAuthnRPError),
                'missing attested data is reported as ' +
                type(r[1]).__name__)
