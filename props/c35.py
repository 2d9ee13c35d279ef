"""Calls leave what they are given as it was."""
from symex.watch import Watch

from . import compose
from .common import *

ID = 'C35'
REQUIRED = ('kept-success', 'kept-failure')
BOUNDS = ('the ceremonies, credentials, documents, keys and options of the '
          'other harnesses (each within its own bounds); everything reachable '
          'from the arguments and from the registered credential data: '
          'attributes, dicts, lists, sets, also those decoded lazily')
ASSUMPTIONS = ('attributes that a call adds to an object are not counted as '
               'changes (caching is allowed), nor are the attributes of the '
               'backend and the builders themselves',)
USES = {'c05': 8, 'c07': 6, 'c08': 24, 'c09': 21, 'c10': 16, 'c11': 8,
        'c13': 6, 'c14': 24, 'c16': 70, 'c19': 20, 'c20': 40, 'c21': 24,
        'c22': 10, 'c24': 12, 'c25': 16, 'c26': 12, 'c27': 20, 'c28': 16,
        'c29': 16, 'c30': 30, 'c31': 20, 'c34': 30}
SKIP = {'c20': ('text',), 'c29': ('parse',)}


def configs(tier):
    out = []
    for m, n in USES.items():
        n = n if tier == 'quick' else 4 * n
        out.extend({'of': m, 'cfg': d} for d in compose.pick(
            m, tier, n, SKIP.get(m, ())))
    return out


def run(c):
    compose.module(c.cfg['of']).run(Watch(c, c.cfg['cfg']))
