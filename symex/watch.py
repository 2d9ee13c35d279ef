"""Snapshots of values: whether a call left what it was given as it was."""
import collections

from . import values as V
from .ctx import Prefixed
from .values import LazySeq, Opaque, Slot, SSet, SymDict

_SCALAR = (int, float, complex, str, bytes, bool, type(None), range, slice)


def _ours(t):
    m = getattr(t, '__module__', '')
    return m.split('.')[0] == 'webauthn_rp'


def same(c, a, b, depth=12):
    """Deep equality of two values of the same kind, as a condition."""
    if a is b or depth < 0:
        return True
    if isinstance(a, (SymDict, dict)) and isinstance(b, (SymDict, dict)):
        x, y = _pairs(a), _pairs(b)
        if len(x) != len(y):
            return False
        return V.And(*[V.And(same(c, k, m, depth - 1),
                             same(c, v, w, depth - 1))
                       for (k, v), (m, w) in zip(x, y)])
    ca, cb = a.__class__, b.__class__
    if ca is not cb:
        return False
    if ca in (list, tuple, collections.deque) or isinstance(a, tuple):
        if len(a) != len(b):
            return False
        return V.And(*[same(c, x, y, depth - 1) for x, y in zip(a, b)])
    if _ours(ca) and hasattr(a, '__dict__') and ca.__eq__ is object.__eq__:
        x, y = vars(a), vars(b)
        return V.And(*[same(c, x[k], y[k], depth - 1) if k in x and k in y
                       else False for k in set(x) | set(y)])
    return V.sx_eq(a, b)


def _pairs(d):
    return [(s.key, s.get()) for s in d._force()] if type(d) is SymDict \
        else list(d.items())


class Snapshot:
    """The state of everything reachable from some values."""

    def __init__(self, *roots):
        self.recs = []
        self.seen = {}
        for x in roots:
            self.take(x)

    def take(self, x):
        t = type(x)
        if t in _SCALAR or id(x) in self.seen:
            return
        self.seen[id(x)] = x
        if t is SymDict:
            rec = [(s, s.key) for s in x.slots]
            vals = {}
            for s in x.slots:
                self._slot(s, vals)
            self.recs.append((self._symdict, x, rec, vals))
        elif t is LazySeq:
            vals = {}
            for i in range(len(x.makers)):
                self._item(x, i, vals)
            self.recs.append((self._lazyseq, x, len(x.makers), vals))
        elif t is SSet:
            self.recs.append((self._sset, x, list(x.els), None))
            for v, g in x.els:
                self.take(v)
        elif isinstance(x, Opaque) or issubclass(t, V.Proxy):
            return
        elif isinstance(x, dict):
            self.recs.append((self._dict, x, list(x.items()), None))
            for v in list(x.values()):
                self.take(v)
        elif isinstance(x, (list, collections.deque, bytearray)):
            self.recs.append((self._list, x, list(x), None))
            for v in x:
                self.take(v)
        elif isinstance(x, (tuple, frozenset)):
            for v in x:
                self.take(v)
        elif isinstance(x, set):
            self.recs.append((self._set, x, set(x), None))
        elif _ours(t) and not isinstance(x, type) and \
                type(getattr(x, '__dict__', None)) is dict:
            d = dict(vars(x))
            self.recs.append((self._object, x, d, None))
            for v in d.values():
                self.take(v)

    # values made later are recorded when they are made
    def _slot(self, s, vals):
        if s.made or not callable(s.make):
            v = s.get()
            vals[id(s)] = v
            self.take(v)
            return
        make = s.make

        def first():
            v = make()
            vals[id(s)] = v
            self.take(v)
            return v
        s.make = first

    def _item(self, x, i, vals):
        make = x.makers[i]
        if make is None:
            vals[i] = x.vals[i]
            self.take(x.vals[i])
            return

        def first():
            v = make()
            vals[i] = v
            self.take(v)
            return v
        x.makers[i] = first

    # -- comparison: conditions
    def changes(self, c):
        """[(what, condition that it is as before)]"""
        out = []
        for f, x, saved, vals in list(self.recs):
            out.extend(f(c, x, saved, vals))
        return out

    def _symdict(self, c, x, saved, vals):
        now = {id(s): s for s in x.slots}
        old = {id(s) for s, k in saved}
        yield 'members added', all(i in old for i in now)
        order = [id(s) for s in x.slots if id(s) in old]
        yield 'order of members', order == [
            id(s) for s, k in saved if id(s) in now]
        for s, k in saved:
            if id(s) not in now:
                yield 'member removed', s.present is False
            elif s.made and s.present is not False:
                if id(s) not in vals:
                    yield 'member replaced', False
                else:
                    yield 'member replaced', same(c, s.value, vals[id(s)])

    def _lazyseq(self, c, x, n, vals):
        yield 'length of a list', len(x.makers) == n
        for i, v in vals.items():
            if i < len(x.makers):
                yield 'element of a list', same(c, x.vals[i], v)

    def _sset(self, c, x, els, _):
        yield 'elements of a set', len(x.els) == len(els) and all(
            v is w and (g is h or getattr(g, 'eq', h.__eq__)(h) is True)
            for (v, g), (w, h) in zip(x.els, els))

    def _dict(self, c, x, its, _):
        now = list(x.items())
        yield 'members of a dict', len(now) == len(its) and all(
            k is m or k == m for (k, v), (m, w) in zip(now, its))
        for (k, v), (m, w) in zip(now, its):
            yield 'member of a dict', same(c, v, w)

    def _list(self, c, x, its, _):
        yield 'length of a list', len(x) == len(its)
        for v, w in zip(x, its):
            yield 'element of a list', same(c, v, w)

    def _set(self, c, x, els, _):
        yield 'elements of a set', x == els

    def _object(self, c, x, d, _):
        for k, v in d.items():
            if k not in vars(x):
                yield 'attribute %s removed' % k, False
            else:
                yield 'attribute %s of %s' % (k, type(x).__name__), \
                    same(c, vars(x)[k], v)


class Watch(Prefixed):
    """A context that checks only that no call changes its arguments."""

    def __init__(self, c, cfg):
        super().__init__(c, '', cfg)

    def outcome(self, *x):
        self._c.outcome(*x)

    def call(self, f, *a, **k):
        c = self._c
        snap = Snapshot(*a, *k.values(), *self.owned(f))
        r = c.call(f, *a, **k)
        for what, cond in snap.changes(c):
            c.check(cond, 'changed by the call: ' + what)
        c.reach('kept-' + ('success' if r[0] == 'ok' else 'failure'))
        return r

    def owned(self, f):
        """What the application's registrar has stored."""
        r = getattr(getattr(f, '__self__', None), 'registrar', None)
        return [getattr(r, 'data', None)]
