"""Path exploration over z3: depth-first search by re-execution.

One Engine explores one harness.  Every run re-executes the harness from the
start; branches on symbolic conditions are decided by the recorded prefix and,
past it, by the current model, with one solver query for the other side.
"""
import os
import sys
import time

_VT = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
if _VT not in sys.path:
    sys.path.append(_VT)
import z3  # noqa: E402

z3.set_param('model.compact', False)


class Control(BaseException):
    """Steers the exploration; never caught by code under test."""


class PathAbort(Control):
    """The path is infeasible or assumed away."""


class Cut(Control):
    """The path leaves the stated bounds (recorded as a cut)."""


class Unmodelled(Control):
    """The code did something the encoding has no model for."""


class Inconclusive(Control):
    """The solver answered unknown."""


class Found(Control):
    """The path violates the property; carries a candidate model."""

    def __init__(self, msg, model, cond=None):
        super().__init__(msg)
        self.msg = msg
        self.model = model
        self.cond = cond      # extra condition (negated obligation)


class Stats:
    FIELDS = ('paths', 'aborted', 'cut', 'unmodelled', 'inconclusive',
              'branches', 'queries', 'asserts', 'discharged', 'concretised',
              'concretise_capped', 'nondet')

    def __init__(self):
        for f in self.FIELDS:
            setattr(self, f, 0)
        self.solver_s = 0.0
        self.notes = {}

    def note(self, s):
        self.notes[s] = self.notes.get(s, 0) + 1

    def as_dict(self):
        d = {f: getattr(self, f) for f in self.FIELDS}
        d['solver_s'] = round(self.solver_s, 3)
        d['notes'] = dict(self.notes)
        return d


class Decision:
    __slots__ = ('value', 'alt_model', 'open', 'cond')

    def __init__(self, value, open_, alt_model, cond):
        self.value = value
        self.open = open_        # other side feasible and unexplored
        self.alt_model = alt_model
        self.cond = cond


ENG = None  # the engine of the current run (symbolic mode only)


def eng():
    return ENG


class Engine:
    CONCRETISE_CAP = 4

    def __init__(self, timeout_ms=30000):
        self.solver = z3.SolverFor('QF_BV')
        self.solver.set('timeout', timeout_ms)
        self.stats = Stats()
        self.trace = []      # decisions of the current run
        self.prefix_len = 0
        self.levels = 0      # pushes on the solver
        self.retained = -1
        self.functions = set()
        self.limit = float('inf')   # end of the time for one path
        self.waived = set()  # failed obligations without a real witness
        self.again = None    # model with which to repeat the last path
        self.picks = []      # (pos, values) of concretisations
        self.reset_run()

    # -- run management ---------------------------------------------------
    def reset_run(self):
        self.pos = 0
        self.pick_no = 0
        self.pinned = {}
        self.known = {}
        self.keep = []
        self.names = {}
        self.counter = {}
        self.hashes = []     # (alg, data descr, digest items)
        self.points = []
        self.sigs = []
        self.objects = {}
        self.leaves = {}     # name -> ('int'|'bytes'|..., terms)
        self.model = None
        self.reads = 0

    def _check(self, *lits):
        t = time.monotonic()
        if t > self.limit:
            raise Inconclusive('time for one path used up')
        r = self.solver.check(*lits)
        self.stats.solver_s += time.monotonic() - t
        self.stats.queries += 1
        if r == z3.unknown:
            raise Inconclusive('solver: ' + self.solver.reason_unknown())
        return r == z3.sat

    def start(self):
        """Prepare a run with self.trace as forced prefix."""
        global ENG
        ENG = self
        self.reset_run()
        n = len(self.trace)
        self.prefix_len = n
        keep = max(n - 1, 0)
        while self.levels > keep:
            self.solver.pop()
            self.levels -= 1
        # level k holds the constraints added after k decisions; levels
        # 0..n-1 are retained, level n is pushed by decision n-1 below.
        self.retained = n - 1 if n else -1
        if self.again is not None:
            self.model, self.again = self.again, None
            if n == 0:
                self.solver.reset()
                self.levels = 0
        elif n and self.trace[-1].alt_model is not None:
            self.model = self.trace[-1].alt_model
        else:
            if n == 0:
                self.solver.reset()
                self.levels = 0
            self.model = None
        if self.model is None:
            if not self._check():
                raise PathAbort('infeasible start')
            self.model = self.solver.model()

    def next_prefix(self):
        """Set self.trace to the next unexplored prefix; False when done."""
        while self.trace:
            d = self.trace[-1]
            if d.open:
                d.open = False
                d.value = not d.value
                n = len(self.trace)
                self.picks = [p for p in self.picks if p[0] < n]
                return True
            self.trace.pop()
        return False

    # -- terms -------------------------------------------------------------
    def fresh_name(self, base):
        n = self.counter.get(base, 0)
        self.counter[base] = n + 1
        return base if n == 0 else '%s!%d' % (base, n)

    def holds_in_model(self, cond):
        return z3.is_true(self.model.eval(cond, model_completion=True))

    # -- constraints --------------------------------------------------------
    def assume(self, cond):
        if cond is True:
            return
        if cond is False:
            raise PathAbort('assume false')
        if z3.is_true(cond):
            return
        replaying = self.pos <= self.retained
        if not replaying:
            self.solver.add(cond)
        elif self.pos == self.prefix_len:
            self.solver.add(cond)
        if self.pos >= self.prefix_len:
            if not self.holds_in_model(cond):
                if not self._check():
                    raise PathAbort('assumption infeasible')
                self.model = self.solver.model()

    def branch(self, cond):
        if cond is True or cond is False:
            return cond
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        cid = cond.get_id()
        k = self.known.get(cid)
        if k is not None:
            return k
        i = self.pos
        if i < self.prefix_len:
            d = self.trace[i]
            if d.cond.get_id() != cid and not d.cond.eq(cond):
                self.stats.nondet += 1
                raise Inconclusive('non-deterministic re-execution')
            v = d.value
            if i == self.prefix_len - 1:
                # the flipped decision: its level must be pushed
                self.solver.push()
                self.levels += 1
                self.solver.add(cond if v else z3.Not(cond))
            self.pos += 1
            self._learn(cond, v)
            return v
        v = self.holds_in_model(cond)
        self.stats.branches += 1
        lit = cond if v else z3.Not(cond)
        other = z3.Not(cond) if v else cond
        alt = None
        feasible = self._check(other)
        if feasible:
            alt = self.solver.model()
        self.trace.append(Decision(v, feasible, alt, cond))
        self.solver.push()
        self.levels += 1
        self.solver.add(lit)
        self.pos += 1
        self._learn(cond, v)
        return v

    def likely(self, cond):
        """branch(), exploring the side where cond holds first."""
        if cond is not True and cond is not False and \
                self.pos >= self.prefix_len and \
                self.known.get(cond.get_id()) is None and \
                not self.holds_in_model(cond) and self._check(cond):
            self.model = self.solver.model()
        return self.branch(cond)

    def _learn(self, cond, v):
        self.keep.append(cond)
        self.known[cond.get_id()] = v
        if z3.is_not(cond):
            c = cond.arg(0)
            self.keep.append(c)
            self.known[c.get_id()] = not v
        else:
            n = z3.Not(cond)
            self.keep.append(n)
            self.known[n.get_id()] = not v

    def value_of(self, term):
        return self.model.eval(term, model_completion=True)

    def pick(self, terms, why='', cap=None):
        """Concretise terms: fork on their values in the model (capped)."""
        key = tuple(t.get_id() for t in terms)
        if key in self.pinned:
            return self.pinned[key]
        cap = self.CONCRETISE_CAP if cap is None else cap
        self.stats.concretised += 1
        if why:
            self.stats.note('concretised: ' + why)
        tries = 0
        while True:
            if self.pick_no < len(self.picks):
                vals = self.picks[self.pick_no][1]
                fresh = False
            else:
                vals = tuple(self.value_of(t).as_long() for t in terms)
                self.picks.append((self.pos, vals))
                fresh = True
            self.pick_no += 1
            cond = z3.And([t == v for t, v in zip(terms, vals)])
            n = len(self.trace)
            if self.branch(cond):
                if fresh and len(self.trace) > n and tries + 1 >= cap:
                    d = self.trace[-1]
                    if d.open:
                        d.open = False
                        self.stats.concretise_capped += 1
                        self.stats.note('concretisation capped: ' + why)
                self.keep.extend(terms)
                self.pinned[key] = vals
                return vals
            tries += 1

    def waive(self, msg):
        """Take the obligation that failed last as an assumption (no real
        input realises the counterexample) and repeat the path."""
        self.waived.add(self._key(msg))
        self.again = self.path_model

    def _key(self, msg):
        return (msg, tuple(d.value for d in self.trace[:self.pos]))

    def check(self, cond, msg):
        """Property obligation: must hold for every value on this path."""
        if self.waived and cond is not False and self._key(msg) in self.waived:
            self.assume(cond)
            return
        self.path_model = self.model
        self.stats.asserts += 1
        if cond is True:
            self.stats.discharged += 1
            return
        if cond is False:
            raise Found(msg, self.model)
        if not self.holds_in_model(cond):
            raise Found(msg, self.model, z3.Not(cond))
        if self._check(z3.Not(cond)):
            raise Found(msg, self.solver.model(), z3.Not(cond))
        self.stats.discharged += 1
