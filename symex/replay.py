"""Replays a counterexample on the real code: exit 1 when it violates."""
import importlib
import json
import os
import sys

sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)


def main():
    r = json.load(open(sys.argv[1]))
    from . import ctx
    prop = importlib.import_module('props.' + r['module'])
    st, detail, c = ctx.run_concrete(prop.run, r['config'], r['witness'],
                                     r['seed'])
    print('%s: %s %s' % (r['property'], st, detail))
    for o in c.outcomes:
        print('  outcome: ' + ' '.join(o))
    return {'violated': 1, 'ok': 0}.get(st, 3)


if __name__ == '__main__':
    sys.exit(main())
