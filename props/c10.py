"""User identity: provided user, registered user and user handle agree."""
from .common import *

ID = 'C10'
REQUIRED = ('accept', 'reject', 'id-mismatch', 'handle-mismatch',
            'handle-missing')
BOUNDS = ('user ids and handles of 0 to 300 bytes (40 of them symbolic beyond '
          '150)')
ASSUMPTIONS = ('everything else in the ceremony is honest',)


def configs(tier):
    ex = []
    lens = [(8, 8, 8), (8, 8, 7), (8, 7, 8), (7, 8, 8), (0, 0, 0), (1, 1, 1),
            (1, 1, 0), (0, 0, 1), (64, 64, 64), (65, 65, 65), (300, 300, 300)]
    if tier == 'thorough':
        lens += [(64, 64, 63), (32, 32, 32), (130, 130, 130)]
    for g, reg, h in lens:
        ex.append({'g': g, 'r': reg, 'h': h})
        ex.append({'g': None, 'r': reg, 'h': h})
        ex.append({'g': g, 'r': reg, 'h': None})
        ex.append({'g': None, 'r': reg, 'h': None})
    return spread(tier, ex, without=('user', 'handle'), which=('get',))


def run(c):
    T = c.M.types
    a = Assertion(c)

    def user(name, n, label, icon):
        return T.PublicKeyCredentialUserEntity(
            name=label, id=some_bytes(c, name, n), display_name=label, icon=icon)
    g, reg, h = c.cfg['g'], c.cfg['r'], c.cfg['h']
    a.registered_user = user('registered', reg, 'Registered', a.icon)
    a.user_arg = None if g is None else user('given', g, 'Given',
                                             a.user.icon)
    a.user_handle = None if h is None else some_bytes(c, 'handle', h)
    a.build()
    r = a.go()
    rid = a.registered_user.id
    same_given = True if g is None else c.eq(a.user_arg.id, rid)
    same_handle = (g is not None) if h is None else c.eq(a.user_handle, rid)
    cond = c.And(same_given, same_handle)
    if r[0] == 'ok':
        c.check(cond, 'accepted although the user identities disagree')
        call, = a.registrar.registered()
        c.check(c.eq(call[1]['user'].id, rid), 'another user is reported to '
                'the registrar')
        return
    c.check(c.Not(cond), 'rejected although the user identities agree')
    if is_error(c, r, 'UserIDError'):
        c.reach('id-mismatch')
        c.check(c.Not(same_given), 'UserIDError although the ids agree')
    elif is_error(c, r, 'UserHandleError'):
        c.reach('handle-missing' if h is None else 'handle-mismatch')
        c.check(c.And(same_given, c.Not(same_handle)), 'UserHandleError '
                'although the handle is right')
    else:
        c.check(False, 'identity mismatch reported as ' +
                type(r[1]).__name__)
