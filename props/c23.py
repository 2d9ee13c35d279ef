"""Client data: exactly the JSON objects with textual type, challenge and
origin are accepted, and their members arrive unchanged."""
from symex.ctx import JSON_KINDS

from .common import *

ID = 'C23'
REQUIRED = ('accept', 'reject', 'decoding', 'binding-accept',
            'binding-reject', 'status-accept', 'status-reject', 'extra')
BOUNDS = ('texts of up to 12, also of 40, characters of any code point; documents '
          'of 100 bytes to 50 kB; every pair of '
          'members of unexpected type, null or absent; token binding statuses '
          'of 7, 8, 9 and 13 characters; one extra member')
ASSUMPTIONS = ('a document is decoded by json into the structure it encodes',)

ODD = [None, 0, 1, True, 1.5, [], ['x'], {}, {'a': 'b'}, 1 << 70]
TOP = ('type', 'challenge', 'origin')
ABSENT = object()


def configs(tier):
    out = []
    ms = TOP + ('tokenBinding',)
    for n in (0, 1, 4, 12):
        out.append({'mode': 'texts', 'n': n})
    for k in (1, 2):
        for v in itertools.combinations(ms, k):
            out.append({'mode': 'vary', 'vary': list(v)})
    for s in ('present', 'supported', 'text', 'odd', 'absent'):
        for i in ('text', 'odd', 'absent', 'null'):
            out.append({'mode': 'binding', 'status': s, 'id': i})
    for n in (0, 7, 8, 9, 13):
        out.append({'mode': 'status', 'n': n})
    out += [{'mode': 'kinds', 'size': n} for n in (100, 1000, 10000)]
    out += [{'mode': 'whole'}, {'mode': 'extra'}, {'mode': 'inside'}]
    for n in (1, 10, 50):
        out.append({'mode': 'texts', 'n': 40, 'size': 1000 * n})
    return out


def run(c):
    cfg = c.cfg
    mode = cfg['mode']
    parse = c.M.parsers.parse_client_data
    n = cfg.get('n', 3) if mode == 'texts' else 3
    vals = {m: c.text('v.' + m, n) for m in TOP}
    tb, good = ABSENT, True
    if mode == 'kinds':
        r = c.call(parse, c.json('cd', lambda c: dict(vals), JSON_KINDS[1:],
                                 cfg['size']))
        note(c, r)
        c.reach('decoding')
        c.check(is_error(c, r, 'DecodingError'), 'undecodable client data '
                'reported as ' + type(r[1]).__name__)
        return
    if mode == 'inside':
        # the members are there, but inside something
        w = dict(vals)
        v = c.choice('whole', [[w], [w, w], {'clientData': w}, [[w]],
                               {'': w}])
    if mode == 'whole':
        v = c.choice('whole', [x for x in ODD if x.__class__ is not dict] +
                     ['text', ['type', 'challenge', 'origin']])
    if mode in ('whole', 'inside'):
        r = c.call(parse, c.json('cd', lambda c: v))
        note(c, r)
        c.check(is_error(c, r, 'ParserError'), 'client data other than an '
                'object is not a ParserError')
        return
    if mode == 'vary':
        for m in cfg['vary']:
            how = c.choice('how.' + m, ['odd', 'absent'])
            v = ABSENT if how == 'absent' else c.choice('odd.' + m, ODD)
            if m == 'tokenBinding':
                tb = v
                if v is not ABSENT and v is not None:
                    good = False
            else:
                vals[m] = v
                good = False
    elif mode in ('binding', 'status', 'texts'):
        tb = {}
        s = cfg.get('status', 'present' if mode == 'texts' else 'text')
        if s in ('present', 'supported'):
            tb['status'] = s
        elif s == 'text':
            tb['status'] = c.text('status', cfg.get('n', 7), 32, 126)
        elif s == 'odd':
            tb['status'] = c.choice('status', ODD)
        i = cfg.get('id', 'text')
        if i == 'text':
            tb['id'] = c.text('id', n)
        elif i == 'odd':
            tb['id'] = c.choice('id', ODD)
        elif i == 'null':
            tb['id'] = None
        st = tb.get('status')
        if st.__class__ is not str:
            good = False
        else:
            has = tb.get('id') is not None
            good = c.And(
                c.Or(c.eq(st, 'supported'), has and c.eq(st, 'present')),
                not has or tb['id'].__class__ is str)

    def structure(c):
        slots = [(m, True, v) for m, v in vals.items() if v is not ABSENT]
        if mode == 'extra':
            k = c.text('key', 5, 32, 126)
            slots.append((k, True, c.choice('extra', ODD)))
        if tb is not ABSENT:
            slots.append(('tokenBinding', True, tb))
        return c.dict(slots)
    r = c.call(parse, c.json('cd', structure, size=cfg.get('size', 1024)))
    note(c, r)
    if mode in ('binding', 'status'):
        c.reach('%s-%s' % (mode, 'accept' if r[0] == 'ok' else 'reject'))
    if r[0] == 'err':
        c.check(c.Not(good), 'well-formed client data is rejected with ' +
                type(r[1]).__name__)
        c.check(is_error(c, r, 'ParserError'), 'malformed client data is '
                'reported as ' + type(r[1]).__name__)
        return
    c.check(good, 'malformed client data is accepted')
    d = r[1]
    if mode == 'extra':
        c.reach('extra')
    for m in TOP:
        c.check(c.eq(getattr(d, m), vals[m]), 'wrong value of ' + m)
    b = d.token_binding
    if tb is ABSENT or tb is None:
        c.check(b is None, 'a token binding appears from nowhere')
        return
    c.check(b is not None, 'the token binding is lost')
    c.check(c.And(c.eq(b.status.value, tb['status']),
                  type(b.status).__name__ == 'TokenBindingStatus',
                  c.eq(b.id, tb.get('id'))), 'wrong token binding')
