"""Token binding: accepted only when it matches the expectation."""
from .common import *

ID = 'C05'
REQUIRED = SIDES + ('match-none', 'match-supported', 'match-present')
BOUNDS = ('token binding ids of up to 4 (thorough: 24) characters, also '
          'of 70 (thorough: 150), any Unicode; status texts present, '
          'supported and free texts of 7 and 9 characters')
ASSUMPTIONS = ('everything else in the ceremony is honest',
               'the id member is a text, null or absent')


def configs(tier):
    ex = []
    ids = [(3, 3), (0, 0), (4, 3), (3, None), (None, 3), (None, None),
           (70, 70)]
    if tier == 'thorough':
        ids += [(24, 24), (1, 1), (0, 1), (1, 0), (12, 13), (150, 150)]
    for want in ('none', 'supported', 'present'):
        for got in ('none', 'null', 'supported', 'present', 'free'):
            for ci, ei in ids:
                if got in ('none', 'null') and ci not in (3,):
                    continue
                if want == 'none' and ei != 3:
                    continue
                ex.append({'want': want, 'got': got, 'ci': ci, 'ei': ei})
    return spread(tier, ex, without=('tb',))


def run(c):
    T = c.M.types
    want, got, ci, ei = [c.cfg[k] for k in ('want', 'got', 'ci', 'ei')]
    a = ceremony(c)
    S = T.TokenBindingStatus
    id_ = None if ci is None else c.text('id', ci)
    eid = None if ei is None else c.text('expected_id', ei)
    if want != 'none':
        a.token_binding = T.TokenBinding(
            status=S.SUPPORTED if want == 'supported' else S.PRESENT, id=eid)
    status = got
    if got == 'null':
        a.tb_slots = [('tokenBinding', True, None)]
    elif got != 'none':
        if got == 'free':
            status = c.text('status', c.choice('status_length', [7, 9]))
        idm = [('id', 'has_id', lambda: id_)]
        a.tb_slots = [('tokenBinding', True, lambda: c.dict(
            [('status', True, status)] + idm))]
    a.build()
    r = a.go()
    side(c, r)
    if got in ('none', 'null'):
        verdict(c, r, want == 'none', 'the token binding is missing',
                'TokenBindingError')
        if r[0] == 'ok':
            c.reach('match-none')
        return
    has = c.bool('has_id')
    sent = c.Or(c.And(has, id_ is not None))
    present = c.eq(status, 'present')
    supported = c.eq(status, 'supported')
    same_id = c.Or(c.And(sent, eid is not None and c.eq(id_, eid)),
                   c.And(c.Not(sent), eid is None))
    good = c.Or(c.And(present, want == 'present', sent),
                c.And(supported, want == 'supported'))
    cond = c.And(good, same_id)
    well_formed = c.Or(c.And(present, sent), supported)
    if r[0] == 'ok':
        c.check(cond, 'accepted although the token binding differs')
        c.reach('match-' + want)
    else:
        c.check(c.Not(cond), 'rejected although the token binding matches')
        c.check(c.Or(c.And(well_formed, is_error(c, r, 'TokenBindingError')),
                     c.And(c.Not(well_formed), is_error(c, r, 'ParserError'))),
                'token binding mismatch reported as ' + type(r[1]).__name__)
