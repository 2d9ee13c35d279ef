"""Runs one property: explores its harness symbolically over the current
source of /repo, replays every model on the real code, writes the evidence."""
import argparse
import collections
import gc
import importlib
import json
import multiprocessing as mp
import os
import queue
import subprocess
import sys
import time
import traceback
import types

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('SX_REPO', '/repo')  # SX_REPO: development only
EVIDENCE = os.environ.get('SX_EVIDENCE', os.path.join(HERE, 'evidence'))
sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)


def load_symbolic():
    from . import ctx, instrument, models, crypto, rt
    L = instrument.Loader(rt, REPO)
    rt._OURS.clear()
    for name, (real, inst) in L.load_stdlib().items():
        for k, v in list(vars(real).items()):
            w = vars(inst).get(k)
            if w is None or k.startswith('__') or not callable(v):
                continue
            if getattr(v, '__module__', None) != name:
                continue
            try:
                rt.MODELS.setdefault(v, w)
            except TypeError:
                pass
    for m in ctx.MODULES:
        try:
            L.load('webauthn_rp.' + m)
        except ImportError:
            if m in ('backends', 'parsers', 'types', 'errors'):
                raise
    rt._OURS.update(L.mods)
    rt._OURS.update('sxstd.' + s for s in L.stdlib)
    return L, ctx.Namespace(L.load)


class Globals:
    """Snapshot of everything mutable that is reachable from the modules and
    classes of the loaded code (containers, default arguments, closures,
    instances), put back before every path."""

    def __init__(self, L):
        self.saved = []
        self.keep = []
        seen = set()
        todo = list(L.mods.values())
        while todo:
            o = todo.pop()
            if id(o) in seen:
                continue
            seen.add(id(o))
            self.keep.append(o)
            t = type(o)
            if t is types.ModuleType:
                if o.__name__ not in L.mods:
                    continue
                todo.extend(self._vars(o, vars(o)))
            elif isinstance(o, type):
                if o.__module__ in L.mods:
                    todo.extend(self._vars(o, vars(o)))
            elif t is types.FunctionType:
                if o.__module__ not in L.mods and \
                        o.__globals__.get('__name__') not in L.mods:
                    continue
                todo.append(o.__dict__)
                todo.extend(o.__defaults__ or ())
                todo.append(o.__kwdefaults__)
                todo.extend(o.__closure__ or ())
            elif t is types.CellType:
                try:
                    v = o.cell_contents
                except ValueError:
                    continue
                self.saved.append((_put_cell, o, v))
                todo.append(v)
            elif t is types.MethodType:
                todo += [o.__func__, o.__self__]
            elif t in (staticmethod, classmethod):
                todo.append(o.__func__)
            elif t is property:
                todo += [o.fget, o.fset]
            elif t.__name__ == 'SSet':
                self.saved.append((_put_els, o, list(o.els)))
                todo.extend(v for v, g in o.els)
            elif t.__name__ == 'SymDict':
                self.saved.append((_put_slots, o, list(o.slots)))
                todo.extend(s.get() for s in o.slots)
            elif isinstance(o, dict):
                self.saved.append((_put_dict, o, dict(o)))
                todo.extend(dict.values(o))
            elif isinstance(o, (list, bytearray, collections.deque)):
                self.saved.append((_put_list, o, list(o)))
                if t is not bytearray:
                    todo.extend(o)
            elif isinstance(o, set):
                self.saved.append((_put_set, o, set(o)))
            elif isinstance(o, (tuple, frozenset)):
                todo.extend(o)
            elif t.__module__ in L.mods or t.__name__ == '_Cached':
                d = getattr(o, '__dict__', None)
                if type(d) is dict:
                    todo.append(d)

    def _vars(self, owner, ns):
        mine = {k: v for k, v in ns.items() if not k.startswith('__')}
        self.saved.append((_put_vars, owner, (mine, len(ns))))
        return list(mine.values())

    def restore(self):
        for put, o, v in self.saved:
            try:
                put(o, v)
            except Exception:
                pass


_NONE = object()


def _put_vars(o, saved):
    ns = vars(o)
    saved, n = saved
    for k, v in saved.items():
        if ns.get(k, _NONE) is not v:
            setattr(o, k, v)
    if len(ns) != n:
        for k in [k for k in ns if not k.startswith('__') and
                  k not in saved]:
            delattr(o, k)


def _put_cell(o, v):
    if o.cell_contents is not v:
        o.cell_contents = v


def _put_dict(o, saved):
    # no comparison of keys here: they may be symbolic
    if len(o) != len(saved) or any(
            k is not j or v is not w for (k, v), (j, w) in zip(
                dict.items(o), saved.items())):
        o.clear()
        o.update(saved)


def _put_list(o, saved):
    if len(o) != len(saved) or any(
            x is not y for x, y in zip(o, saved)):
        o.clear()
        o.extend(saved)


def _put_els(o, saved):
    o.els = list(saved)


def _put_slots(o, saved):
    o.slots = list(saved)


def _put_set(o, saved):
    if len(o) != len(saved) or {id(x) for x in o} != {id(x) for x in saved}:
        o.clear()
        o.update(saved)


def explore(prop, cfg, budget, seed, L, M, G):
    for r in exploration(prop, cfg, lambda: budget, seed, L, M, G):
        pass
    return r


WITNESS_ALL = 60    # replay every path up to this one,
PATH_S = 30         # seconds for one path
WITNESS_EVERY = 8   # then one in so many


def exploration(prop, cfg, slice_s, seed, L, M, G):
    """Explore one configuration: a generator that yields its result dict
    after every time slice; done when r['complete'] or r['closed']."""
    from . import core, ctx
    from .core import (Cut, Found, Inconclusive, PathAbort, Unmodelled)
    eng = core.Engine()
    t0 = time.monotonic()
    end = t0 + slice_s()
    used = 0.0
    res = {'cfg': cfg, 'closed': False, 'tags_sym': set(), 'tags_conc': set(), 'found': [],
           'unconfirmed': [], 'witnessed': 0, 'skipped': 0, 'no_witness': 0,
           'diverged': 0, 'diverge': [], 'errors': [], 'complete': True,
           'samples': [], 'unmodelled': {}, 'cuts': {}}
    st = eng.stats
    first = True
    limit = getattr(prop, 'MAX_PATHS', 100000)
    npath = 0
    while first or eng.next_prefix():
        first = False   # (set again to repeat a path)
        if time.monotonic() > end or npath >= limit:
            res['complete'] = False
            res['closed'] = npath >= limit
            used += time.monotonic() - t0
            yield _close(res, eng, used)
            if npath >= limit:
                return
            t0 = time.monotonic()
            end = t0 + slice_s()
            res['complete'] = True
        npath += 1
        G.restore()
        c = ctx.SCtx(cfg, M)
        status, found = 'ok', None
        try:
            eng.limit = time.monotonic() + PATH_S
            eng.start()
            prop.run(c)
            st.paths += 1
        except PathAbort:
            st.aborted += 1
            continue
        except Cut as e:
            st.cut += 1
            res['cuts'][str(e)] = res['cuts'].get(str(e), 0) + 1
            status = 'cut'
        except Unmodelled as e:
            st.unmodelled += 1
            res['unmodelled'][str(e)] = res['unmodelled'].get(str(e), 0) + 1
            status = 'unmodelled'
        except Inconclusive as e:
            st.inconclusive += 1
            res['errors'].append(str(e))
            continue
        except Found as e:
            st.paths += 1
            status, found = 'found', e
        except Exception:
            st.unmodelled += 1
            tb = traceback.format_exc(limit=-8)
            res['errors'].append(tb)
            status = 'unmodelled'
        if status == 'ok':
            new = c.tags - res['tags_sym']
            res['tags_sym'] |= c.tags
            if npath > WITNESS_ALL and npath % WITNESS_EVERY and not new:
                continue
        # a concrete input for this path, on the real code
        eng.limit = float('inf')
        try:
            if found is not None:
                w = _witness_found(eng, prop, cfg, found, seed)
            else:
                w = ctx.make_witness(eng, prop.run, cfg, eng.model, None,
                                     seed)
        except Inconclusive:
            w = None
        except Exception:
            res['errors'].append(traceback.format_exc(limit=-8))
            w = None
        if w is None:
            res['no_witness'] += 1
            if found is not None:
                res['unconfirmed'].append(found.msg)
                first = _waive(eng, found)
            continue
        r, detail, cc = ctx.run_concrete(prop.run, cfg, w, seed)
        if r == 'violated':
            res['found'].append({'msg': detail, 'witness': w,
                                 'solver': found is not None})
            res['closed'] = True
            yield _close(res, eng, used + time.monotonic() - t0)
            return
        if found is not None:
            res['unconfirmed'].append('%s (replay: %s %s)' % (
                found.msg, r, detail))
            if os.environ.get('SX_DEBUG'):
                print('UNCONFIRMED', found.msg, json.dumps(w)[:2000],
                      cc.outcomes, c.outcomes, r, detail)
            first = _waive(eng, found)
            continue
        if r == 'skip':
            res['skipped'] += 1
            if os.environ.get('SX_DEBUG'):
                print('SKIP', detail, status, json.dumps(w)[:500])
            continue
        if r == 'error':
            res['errors'].append('concrete run: ' + detail)
            continue
        res['witnessed'] += 1
        res['tags_conc'] |= cc.tags
        if len(res['samples']) < 2:
            res['samples'].append({
                'config': cfg, 'witness': _short(w),
                'outcome': [list(o) for o in cc.outcomes]})
        if status == 'ok' and (c.outcomes != cc.outcomes or
                               c.tags != cc.tags):
            res['diverged'] += 1
            if len(res['diverge']) < 5:
                res['diverge'].append({
                    'sym': [list(o) for o in c.outcomes] + sorted(c.tags),
                    'real': [list(o) for o in cc.outcomes] + sorted(cc.tags),
                    'witness': _short(w)})
    res['closed'] = True
    yield _close(res, eng, used + time.monotonic() - t0)


def _waive(eng, found):
    if found.cond is None or len(eng.waived) > 200:
        return False
    eng.waive(found.msg)
    return True


def _witness_found(eng, prop, cfg, found, seed):
    from . import ctx
    extra = found.cond
    w = ctx.make_witness(eng, prop.run, cfg, found.model, extra, seed)
    return w


def _short(w):
    out = {}
    for k, v in list(w.items())[:40]:
        s = json.dumps(v)
        out[k] = v if len(s) < 120 else s[:120] + '...'
    return out


def _close(res, eng, wall):
    out = dict(res)
    out['stats'] = eng.stats.as_dict()
    out['functions'] = sorted(eng.functions)
    out['wall_s'] = wall
    out['tags_sym'] = sorted(res['tags_sym'])
    out['tags_conc'] = sorted(res['tags_conc'])
    return out


def worker(prop_name, jobs, results, seed, deadline, per_cfg, stop):
    """Takes configurations one by one; one that is not finished within a
    slice is put aside and continued, in turn, once all have been started."""
    gc.set_threshold(100000, 20, 50)
    try:
        L, M = load_symbolic()
        G = Globals(L)
        prop = importlib.import_module('props.' + prop_name)
    except BaseException:
        results.put({'fatal': traceback.format_exc()})
        return
    waiting = collections.deque()
    slice_s = [per_cfg]

    def left():
        return max(min(slice_s[0], deadline - time.monotonic()), 0)

    def step(cfg, g):
        try:
            r = next(g)
        except BaseException:
            results.put({'cfg': cfg, 'fatal': traceback.format_exc()})
            return
        if r['complete'] or r['closed']:
            results.put(r)
        elif time.monotonic() >= deadline:
            results.put(r)
        else:
            waiting.append((cfg, g, r))
    while not stop.is_set():
        try:
            i, cfg = jobs.get_nowait()
        except queue.Empty:
            break
        if time.monotonic() >= deadline:
            results.put({'cfg': cfg, 'not_run': True})
            continue
        step(cfg, exploration(prop, cfg, left, seed, L, M, G))
    while waiting and not stop.is_set():
        slice_s[0] = per_cfg * 2
        cfg, g, r = waiting.popleft()
        if time.monotonic() >= deadline:
            results.put(r)
            continue
        step(cfg, g)
    for cfg, g, r in waiting:
        results.put(r)
    results.put(None)


def known_findings(pid):
    """{message: line} of the findings listed for this property."""
    out = {}
    p = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith('known: property=%s ' % pid):
                out[line.split(' ', 2)[2]] = line
    return out


def confirm(pid, prop_name, cfg, found, seed):
    """Write a replay file and replay it in a fresh process."""
    d = os.path.join(EVIDENCE, 'replays')
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, '%s.json' % pid)
    with open(path, 'w') as f:
        json.dump({'property': pid, 'module': prop_name, 'config': cfg,
                   'message': found['msg'], 'witness': found['witness'],
                   'seed': seed}, f, indent=1)
    r = subprocess.run(
        [sys.executable, '-B', '-m', 'symex.replay', path], cwd=HERE,
        stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return r.returncode == 1, path, r.stdout


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('tier', nargs='?', default='quick')
    ap.add_argument('--jobs', type=int, default=min(8, os.cpu_count() or 1))
    ap.add_argument('--only', help='substring of the configuration')
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args(argv)
    prop_name = a.property.lower()
    t0 = time.monotonic()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    from . import core
    prop = importlib.import_module('props.' + prop_name)
    pid = prop.ID
    cfgs = list(prop.configs(a.tier))
    if a.only:
        cfgs = [c for c in cfgs if a.only in json.dumps(c)]
    budget = getattr(prop, 'BUDGET', {}).get(
        a.tier, 150 if a.tier == 'quick' else 720)
    n = max(1, min(a.jobs, len(cfgs)))
    # the slice a configuration gets before the next one is started
    per_cfg = max(3.0, min(60.0, 0.5 * budget * n / max(len(cfgs), 1)))
    deadline = time.monotonic() + budget
    jobs, results = mp.Queue(), mp.Queue()
    jobs.cancel_join_thread()     # not all of them may be taken
    stop = mp.Event()
    for i, c in enumerate(cfgs):
        jobs.put((i, c))
    time.sleep(0.05)
    procs = [mp.Process(target=worker, args=(
        prop_name, jobs, results, seed, deadline, per_cfg, stop), daemon=True)
        for _ in range(n)]
    for p in procs:
        p.start()
    out, fatal, live = [], [], n
    violation = None
    known = known_findings(pid)
    seen_known = set()
    while live:
        try:
            r = results.get(timeout=5)
        except queue.Empty:
            if time.monotonic() > deadline + 80:
                for p in procs:
                    p.kill()
                # those configurations count as not completed
                print('workers stopped after the time budget')
                break
            if not any(p.is_alive() for p in procs):
                try:
                    r = results.get(timeout=1)
                except queue.Empty:
                    fatal.append('a worker died')
                    break
            else:
                continue
        if r is None:
            live -= 1
            continue
        if 'fatal' in r:
            fatal.append(r['fatal'])
            if 'cfg' not in r:
                live -= 1
            continue
        out.append(r)
        for f in r.get('found', []):
            if f['msg'] in known:
                seen_known.add(f['msg'])
                continue
            ok, path, text = confirm(pid, prop_name, r['cfg'], f, seed)
            if ok:
                violation = (f, r['cfg'], path)
            else:
                r['unconfirmed'].append(f['msg'] + ' (fresh replay differs)')
        if violation and not stop.is_set():
            stop.set()
    for p in procs:
        p.join(timeout=5)
        if p.is_alive():
            p.kill()
    return report(a, prop, pid, cfgs, out, fatal, violation, seen_known,
                  known, seed, time.monotonic() - t0)


def _sum(out, k):
    return sum(r['stats'][k] for r in out if 'stats' in r)


def _merge(out, k):
    d = {}
    for r in out:
        for s, n in r.get(k, {}).items():
            d[s] = d.get(s, 0) + n
    return d


def report(a, prop, pid, cfgs, out, fatal, violation, seen_known, known,
           seed, wall):
    ran = [r for r in out if 'stats' in r]
    notes = {}
    for r in ran:
        for s, n in r['stats']['notes'].items():
            notes[s] = notes.get(s, 0) + n
    tags_sym = set().union(*[set(r['tags_sym']) for r in ran]) if ran \
        else set()
    tags_conc = set().union(*[set(r['tags_conc']) for r in ran]) if ran \
        else set()
    need = set(getattr(prop, 'REQUIRED', ()))
    missing = sorted(need - (tags_sym & tags_conc)) if not a.only else []
    unconfirmed = [u for r in ran for u in r['unconfirmed']]
    errors = [e for r in ran for e in r['errors']]
    paths = _sum(ran, 'paths')
    unmod = _sum(ran, 'unmodelled')
    cut = _sum(ran, 'cut')
    incon = _sum(ran, 'inconclusive')
    complete = len(ran) == len(cfgs) and all(r['complete'] for r in ran)
    witnessed = sum(r['witnessed'] for r in ran)
    ev = {
        'property': pid, 'tier': a.tier, 'seed': seed,
        'level': 'model_checking',
        'coverage': {
            'states': _sum(ran, 'branches'),
            'transitions': paths,
            'traces_validated_against_impl': witnessed,
            'configurations': len(cfgs),
            'configurations_explored': len(ran),
            'exhaustive_within_bounds': complete and not unmod and not cut
            and not incon and not _sum(ran, 'concretise_capped')
            and not unconfirmed,
            'paths': paths, 'paths_unmodelled': unmod, 'paths_cut': cut,
            'paths_inconclusive': incon,
            'paths_assumed_away': _sum(ran, 'aborted'),
            'branches': _sum(ran, 'branches'),
            'solver_queries': _sum(ran, 'queries'),
            'solver_seconds': round(_sum(ran, 'solver_s'), 2),
            'obligations': _sum(ran, 'asserts'),
            'obligations_discharged': _sum(ran, 'discharged'),
            'concretisations': _sum(ran, 'concretised'),
            'concretisations_capped': _sum(ran, 'concretise_capped'),
            'witness_not_realised': sum(r['no_witness'] for r in ran),
            'witness_outside_assumptions': sum(r['skipped'] for r in ran),
            'divergent_from_impl': sum(r['diverged'] for r in ran),
            'unconfirmed_counterexamples': unconfirmed[:10],
            'reached': sorted(tags_conc), 'reachability_missing': missing,
            'functions_encoded': sorted(set().union(
                *[set(r['functions']) for r in ran])) if ran else [],
            'bounds': getattr(prop, 'BOUNDS', ''),
            'notes': dict(sorted(notes.items())[:60]),
            'unmodelled_reasons': _merge(ran, 'unmodelled'),
            'cut_reasons': _merge(ran, 'cuts'),
            'samples': [s for r in ran for s in r['samples']][:4],
        },
        'assumptions': list(getattr(prop, 'ASSUMPTIONS', ())) + [
            'The models of library functions listed in DESIGN.md are '
            'faithful (each explored path is replayed on the real code; '
            'divergent_from_impl counts disagreements).'],
        'wall_s': round(wall, 2),
        'violations': 1 if violation else 0,
        'known_findings': sorted(seen_known),
    }
    if violation:
        f, cfg, path = violation
        ev['coverage']['violation_details'] = [{'message': f['msg'], 'config': cfg,
                             'replay': path,
                             'decided_by': 'solver' if f['solver'] else
                             'replay of a path witness'}]
    os.makedirs(EVIDENCE, exist_ok=True)
    with open(os.path.join(EVIDENCE, pid + '.json'), 'w') as fh:
        json.dump(ev, fh, indent=1)
    c = ev['coverage']
    print('%s %s: %d configurations, %d paths, %d obligations, %d queries '
          '(%.1f s solver), %d replayed, wall %.1f s%s' % (
              pid, a.tier, len(ran), paths, c['obligations'],
              c['solver_queries'], c['solver_seconds'], witnessed, wall,
              '' if complete else ' [not all configurations completed]'))
    for k, t in (('unmodelled_reasons', 'unmodelled'),
                 ('cut_reasons', 'cut')):
        for s, n in c[k].items():
            print('  %s x%d: %s' % (t, n, s))
    if c['divergent_from_impl']:
        print('  divergent paths: %d' % c['divergent_from_impl'])
        if a.v:
            for r in ran:
                for d in r['diverge'][:3]:
                    print('   ', json.dumps(r['cfg']), json.dumps(d)[:1500])
    for u in unconfirmed[:5]:
        print('  unconfirmed counterexample: ' + u)
    if a.v:
        for e in errors[:5]:
            print('  error: ' + e)
        print('  skipped', sum(r['skipped'] for r in ran), 'no witness',
              c['witness_not_realised'], 'notes', json.dumps(c['notes']))
        slow = sorted(ran, key=lambda r: -r['wall_s'])[:5]
        for r in slow:
            print('  %.1fs %d paths %s' % (
                r['wall_s'], r['stats']['paths'], json.dumps(r['cfg'])))
    elif errors:
        print('  engine errors: %d, e.g. %s' % (
            len(errors), errors[0].strip().splitlines()[-1]))
    for m in sorted(seen_known):
        print('KNOWN-FINDING: property=%s %s' % (pid, m))
    if violation:
        print('  ' + violation[0]['msg'])
        print('VIOLATION property=%s replay=%s' % (pid, violation[2]))
        return 1
    for f in fatal:
        print('FATAL ' + f)
    if fatal or not ran:
        return 2
    undecided = unmod + incon + len(unconfirmed)
    capped = c['concretisations_capped']
    if missing:
        print('NOT REACHED: %s' % ', '.join(missing))
        if not undecided and not cut and complete and not capped \
                or not witnessed:
            # nothing stopped the exploration: the harness is vacuous
            return 2
    if undecided or cut or not complete:
        print('PARTIAL: %d paths decided, %d undecided, %d cut, %d of %d '
              'configurations completed' % (
                  paths, undecided, cut,
                  sum(1 for r in ran if r['complete']), len(cfgs)))
    if not witnessed:
        print('INCONCLUSIVE: no path could be decided')
        return 2
    return 0


if __name__ == '__main__':
    rc = main()
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc)        # whatever is left in queues and workers
