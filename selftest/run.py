"""Differential test of the engine's models: every idiom in snippets.py runs
symbolically; each path's result, under a model of the path, must be what the
interpreter computes for the same arguments.  Not part of any check.

usage: python -m selftest.run [substring]"""
import inspect
import os
import re
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.dirname(HERE))
from symex import core, ctx, main, rt  # noqa: E402
import selftest.snippets as real  # noqa: E402


def arg(c, n):
    k = int(n[1:]) if n[1:] else 0
    if n == 'i':
        return c.int('i', -300, 70000)
    if n == 'u':
        return c.int('u', 0, 255)
    if n == 'p':
        return c.bool('p')
    if n[0] == 'b':
        return c.bytes(n, k)
    return c.text(n, k, 0, 127) if n[0] == 'a' else c.text(n, k)


def norm(x):
    return re.sub(r'0x[0-9a-f]+', '', repr(x)).replace('bytearray', '')


def outcome(f, a):
    try:
        return 'returns', f(*a)
    except core.Control:
        raise
    except Exception as e:
        return 'raises', type(e).__name__


def norm_exc(x):
    return x


def test(L, M, sym, name, cap=400, secs=20):
    f = getattr(real, name)
    g = sym.__dict__[name]
    params = list(inspect.signature(f).parameters)
    eng = core.Engine()
    n, bad, first = 0, [], True
    kinds, inner = {}, 0
    end = time.time() + secs
    while (first or eng.next_prefix()) and n < cap and time.time() < end:
        first = False
        n += 1
        c = ctx.SCtx({}, M)
        before = eng.stats.concretised
        try:
            eng.limit = time.monotonic() + 20
            eng.start()
            kind, r = outcome(g, [arg(c, p) for p in params])
            inner += eng.stats.concretised - before
            r = rt.concretise(r)
        except core.PathAbort:
            continue
        except core.Control as e:
            k = '%s %s' % (type(e).__name__, e)
            kinds[k] = kinds.get(k, 0) + 1
            continue
        except Exception as e:
            bad.append(('engine', repr(e)))
            continue
        w = ctx.extract(eng, eng.model)
        core.ENG = None
        cc = ctx.CCtx({}, M, w, 1)
        args = [arg(cc, p) for p in params]
        rkind, rr = outcome(f, args)
        if (kind, norm(r)) != (rkind, norm(rr)):
            bad.append((args, (kind, r), (rkind, rr)))
    core.ENG = None
    return n, bad, kinds, inner


def run(only=''):
    L, M = main.load_symbolic()
    sym = L._exec('sxself', os.path.join(HERE, 'snippets.py'),
                  register=False)
    worst = 0
    for name, f in vars(real).items():
        if not inspect.isfunction(f) or f.__module__ != real.__name__ or \
                only not in name:
            continue
        t = time.time()
        n, bad, kinds, con = test(L, M, sym, name)
        s = ''
        if bad:
            worst = 1
            s += ' WRONG %d e.g. %r' % (len(bad), bad[0])
        if kinds:
            s += ' %r' % kinds
        if con:
            s += ' concretised inside %d' % con
        t = time.time() - t
        if s or t > 3:
            print('%-10s %4d paths %.1fs%s' % (name, n, t, s[:300]),
                  flush=True)
    return worst


if __name__ == '__main__':
    sys.exit(run(*sys.argv[1:]))
