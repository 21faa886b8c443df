"""Explorer core: bounded exhaustive exploration of the real cyjax code.

A property module (mc/props/cNN.py) supplies

    ID        property id
    BOUNDS    human readable description of the bounded space, per tier
    units(tier)      -> list of structural choices (JSON-able dicts); each is a
                        sub-tree of the choice tree which one worker explores
    run(unit, ctx)   -> explores every behaviour below that choice on the real
                        code and compares each of them with a reference model

Nothing here is sampled: ``units`` and ``run`` enumerate finite products, choice
trees (:func:`leaves`) or reachable state graphs (:func:`bfs`) completely.
"""
from __future__ import annotations

import hashlib
import importlib
import itertools
import json
import os
import shutil
import sys
import tempfile
import time
import traceback
from collections import deque
from contextlib import contextmanager

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')


class Violation(Exception):
    pass


# --------------------------------------------------------------- exploration

class _Chooser:
    """Replays a prefix of choices, then takes the first option everywhere."""

    def __init__(self, prefix):
        self.prefix = prefix
        self.taken = []      # (name, index, number of options)
        self.values = {}

    def pick(self, name, options):
        options = list(options)
        pos = len(self.taken)
        idx = self.prefix[pos] if pos < len(self.prefix) else 0
        if idx >= len(options):
            raise RuntimeError(f'replay diverged at {name}: {idx} >= {len(options)}')
        self.taken.append((name, idx, len(options)))
        self.values[name] = options[idx]
        return options[idx]


class Skip(Exception):
    """Raised by a scenario to drop a meaningless combination of choices."""


def leaves(scenario):
    """All complete executions of a scenario (depth first, stateless).

    ``scenario(c)`` calls ``c.pick(name, options)`` any number of times and
    returns a value; the list of values over *all* choice sequences is returned.
    """
    out = []
    prefix = []
    while True:
        c = _Chooser(prefix)
        try:
            val = scenario(c)
            out.append(c.values if val is None else val)
        except Skip:
            pass
        # backtrack to the deepest point with an untried alternative
        taken = c.taken
        while taken and taken[-1][1] + 1 >= taken[-1][2]:
            taken.pop()
        if not taken:
            return out
        prefix = [t[1] for t in taken[:-1]] + [taken[-1][1] + 1]


def bfs(ctx, init, enabled, build, canon, check, depth):
    """Explicit-state breadth-first search over event histories.

    A state is identified with ``canon(build(history))``; ``build`` replays the
    history on a fresh real object.  ``check`` is evaluated on every edge.
    Returns (number of states, number of edges, max depth reached).
    """
    seen = {canon(build(init))}
    front = deque([tuple(init)])
    edges = 0
    reached = 0
    while front:
        hist = front.popleft()
        if len(hist) - len(init) >= depth:
            continue
        for ev in enabled(hist):
            nxt_hist = hist + (ev,)
            obj = build(nxt_hist)
            edges += 1
            reached = max(reached, len(nxt_hist) - len(init))
            check(nxt_hist, obj)
            key = canon(obj)
            if key not in seen:
                seen.add(key)
                front.append(nxt_hist)
    for k in seen:
        ctx.state(k)
    ctx.transitions += edges
    return len(seen), edges, reached


def digest(obj) -> str:
    import numpy as np

    h = hashlib.blake2b(digest_size=12)

    def rec(o):
        if isinstance(o, (list, tuple)):
            h.update(b'(')
            for x in o:
                rec(x)
            h.update(b')')
        elif isinstance(o, dict):
            for k in sorted(o, key=str):
                h.update(str(k).encode())
                rec(o[k])
        elif hasattr(o, 'dtype') and hasattr(o, 'shape'):
            a = np.ascontiguousarray(np.asarray(o))
            if a.dtype == object:
                h.update(str(a.tolist()).encode())
            else:
                h.update(str(a.shape).encode())
                h.update(a.tobytes())
        else:
            h.update(repr(o).encode())
    rec(obj)
    return h.hexdigest()


class Ctx:
    """Per-unit measurement and comparison."""

    MAX_SAMPLES = 2

    def __init__(self, pid, unit, tier):
        self.pid, self.unit, self.tier = pid, unit, tier
        self._states = set()
        self._outcomes = set()
        self.transitions = 0
        self.traces = 0
        self.comparisons = 0
        self.samples = []
        self.where = None       # description of the current execution

    # -- measurement
    def state(self, key):
        self._states.add(key if isinstance(key, str) and len(key) == 24 else digest(key))

    def rows(self, tag, *arrays):
        """Register every row of a batch of inputs as a state (deduplicated)."""
        import numpy as np
        n = len(arrays[0])
        cols = [np.ascontiguousarray(np.asarray(a)).reshape(n, -1) for a in arrays]
        pre = repr(tag).encode()
        for i in range(n):
            h = hashlib.blake2b(pre, digest_size=12)
            for c in cols:
                h.update(c[i].tobytes())
            self._states.add(h.hexdigest())

    def outcome(self, *vals):
        self._outcomes.add(digest(_rounded(vals)))

    def outcomes_rows(self, arr):
        import numpy as np
        a = np.asarray(arr)
        if a.ndim == 0:
            return self.outcome(a)
        for r in a.reshape(a.shape[0], -1)[:4000]:
            self.outcome(r)

    def sample(self, **kw):
        if len(self.samples) < self.MAX_SAMPLES:
            self.samples.append(_jsonable(kw))

    def ran(self, calls, traces):
        self.transitions += int(calls)
        self.traces += int(traces)

    # -- comparison
    def fail(self, what, **detail):
        raise Violation(json.dumps(_jsonable(
            dict(what=what, where=self.where, **detail)), default=str))

    def check(self, cond, what, **detail):
        self.comparisons += 1
        if not bool(cond):
            self.fail(what, **detail)

    def close(self, got, want, what, rtol=1e-8, atol=1e-9, **detail):
        """Elementwise agreement, shape included; NaN never agrees."""
        import numpy as np
        got = np.asarray(got)
        want = np.asarray(want)
        self.comparisons += 1
        if got.shape != want.shape:
            self.fail(what + ': shape', got=got.shape, want=want.shape, **detail)
        if got.size == 0:
            return
        if got.dtype == object or want.dtype == object:
            got = got.astype(complex)
            want = want.astype(complex)
        with np.errstate(all='ignore'):
            err = np.abs(got - want)
            lim = atol + rtol * np.abs(want)
            bad = ~(err <= lim)
        if bad.any():
            i = np.unravel_index(int(np.argmax(bad)), bad.shape)
            self.fail(what, index=[int(k) for k in i], got=complex(got[i]),
                      want=complex(want[i]), bad=int(bad.sum()), of=int(bad.size),
                      **detail)

    def equal(self, got, want, what, **detail):
        import numpy as np
        self.comparisons += 1
        g, w = np.asarray(got), np.asarray(want)
        if g.shape != w.shape or not np.array_equal(g, w):
            self.fail(what, got=g, want=w, **detail)

    def result(self):
        return dict(states=self._states, outcomes=self._outcomes,
                    transitions=self.transitions, traces=self.traces,
                    comparisons=self.comparisons, samples=self.samples)


def _rounded(vals):
    import numpy as np
    out = []
    for v in vals:
        try:
            a = np.asarray(v)
            if a.dtype.kind in 'fc':
                a = np.round(np.asarray(a, dtype=complex), 6) + 0.0
            out.append(a)
        except Exception:
            out.append(repr(v))
    return out


def _jsonable(o):
    import numpy as np
    if isinstance(o, dict):
        return {str(k): _jsonable(v) for k, v in o.items()}
    if isinstance(o, (list, tuple)):
        return [_jsonable(v) for v in o]
    if isinstance(o, (bool, int, str)) or o is None:
        return o
    if isinstance(o, float):
        return o if o == o and abs(o) != float('inf') else repr(o)
    if isinstance(o, complex):
        return repr(o)
    if isinstance(o, np.generic):
        return _jsonable(o.item())
    if hasattr(o, 'dtype') and hasattr(o, 'shape'):
        a = np.asarray(o)
        if a.size > 64:
            return f'array{a.shape} {a.ravel()[:8].tolist()}...'
        return _jsonable(a.tolist())
    return repr(o)


# ------------------------------------------------------------------- workers

def load_prop(pid):
    return importlib.import_module('mc.props.' + pid.lower())


def setup_process(x64=True):
    """Import the code under test from /repo's working tree."""
    sys.dont_write_bytecode = True
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    import warnings
    warnings.simplefilter('ignore')
    import jax
    jax.config.update('jax_enable_x64', bool(x64))


@contextmanager
def precision(bits):
    import jax
    old = jax.config.jax_enable_x64
    jax.config.update('jax_enable_x64', bits == 64)
    try:
        yield
    finally:
        jax.config.update('jax_enable_x64', old)


def import_cyjax():
    import cyjax
    assert os.path.realpath(cyjax.__file__) == os.path.realpath(
        os.path.join(REPO, 'cyjax', '__init__.py')), cyjax.__file__
    return cyjax


def run_unit(pid, unit, tier):
    setup_process()
    t0 = time.time()
    ctx = Ctx(pid, unit, tier)
    viol = None
    try:
        mod = load_prop(pid)
        pre = getattr(mod, 'before_import', None)
        if pre is not None:
            pre()
        import_cyjax()
        mod.run(unit, ctx)
    except Violation as e:
        viol = json.loads(str(e))
    except (MemoryError, KeyboardInterrupt):
        raise
    except BaseException as e:   # the code under test failed on a legal input
        viol = dict(what=f'raised {type(e).__name__}: {e}'[:600],
                    where=_jsonable(ctx.where),
                    traceback=traceback.format_exc()[-3000:])
    res = ctx.result()
    res.update(unit=unit, violation=viol, wall=time.time() - t0)
    return res


# -------------------------------------------------------------------- parent

def _env():
    os.environ.setdefault('PYTHONHASHSEED', '0')
    os.environ.update(
        JAX_PLATFORMS='cpu', PYTHONDONTWRITEBYTECODE='1', MPLBACKEND='Agg',
        OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1', MKL_NUM_THREADS='1',
        TF_CPP_MIN_LOG_LEVEL='3',
        XLA_FLAGS='--xla_cpu_multi_thread_eigen=false '
                  'intra_op_parallelism_threads=1')
    path = os.environ.get('PYTHONPATH', '')
    os.environ['PYTHONPATH'] = os.pathsep.join(
        p for p in (REPO, VERIF, path) if p)


def explore(pid, tier, workers=None, only=None, verbose=False):
    """Explore the whole bounded space of a property; returns exit code."""
    import multiprocessing as mp
    from concurrent.futures import ProcessPoolExecutor, as_completed
    _env()
    t0 = time.time()
    mod = load_prop(pid)
    units = mod.units(tier) if only is None else only
    workers = workers or min(int(os.environ.get('VERIF_WORKERS', '8')), max(1, len(units)))
    ids = [json.dumps(u, sort_keys=True) for u in units]
    assert len(set(ids)) == len(ids), 'units must be distinct'

    states, outcomes = set(), set()
    tot = dict(transitions=0, traces=0, comparisons=0)
    samples, violations, walls = [], [], []
    known = known_findings(pid)
    hit_known = {}
    scratch = os.environ['TMPDIR'] = tempfile.mkdtemp(prefix='mc-')   # of all workers, removed at the end
    ex = ProcessPoolExecutor(workers, mp_context=mp.get_context('spawn'))
    done = 0
    try:
        futs = [ex.submit(run_unit, pid, u, tier) for u in units]
        for f in as_completed(futs):
            r = f.result()
            done += 1
            states |= r['states']
            outcomes |= r['outcomes']
            for k in tot:
                tot[k] += r[k]
            if len(samples) < 6:
                samples.extend(r['samples'][:6 - len(samples)])
            walls.append((r['wall'], r['unit']))
            if verbose:
                print(f"{r['wall']:6.1f}s {r['unit']} states={len(r['states'])} "
                      f"cmp={r['comparisons']} viol={r['violation'] is not None}", flush=True)
            if r['violation'] is not None:
                k = match_known(known, r['unit'], r['violation'])
                if k is not None:
                    hit_known[k['id']] = k
                    continue
                violations.append((r['unit'], r['violation']))
                if only is None and not os.environ.get('VERIF_ALL'):
                    break
    finally:
        for p in list(getattr(ex, '_processes', {}).values() or []):
            try:
                p.kill()
                p.join(10)
            except Exception:
                pass
        ex.shutdown(wait=False, cancel_futures=True)
        os.environ.pop('TMPDIR')
        shutil.rmtree(scratch, ignore_errors=True)

    for k in hit_known.values():
        print(f"KNOWN-FINDING: property={pid} {k['what']}")
    bounds = mod.BOUNDS
    n_str = len(units)
    cov = dict(
        states=len(states) + n_str,
        transitions=tot['transitions'],
        traces_validated_against_impl=tot['traces'],
        comparisons=tot['comparisons'],
        structural_configurations=n_str,
        configurations_completed=done,
        distinct_outcomes=len(outcomes),
        exhaustive=done == n_str and not violations,
        bounds=bounds if isinstance(bounds, str) else bounds[tier],
        rule='every structural configuration, and below it every input row / event '
             'history of the stated alphabets, is executed on the real code and '
             'compared with the reference model; duplicates are merged before counting',
        samples=samples or [_jsonable(u) for u in units[:2]],
        slowest=[[round(w, 1), u] for w, u in sorted(walls, key=lambda x: -x[0])[:3]],
    )
    ev = dict(property=pid, tier=tier, seed=int(os.environ.get('VERIF_SEED', '0') or 0),
              level='model_checking', coverage=cov,
              assumptions=getattr(mod, 'ASSUMPTIONS', [
                  'single process, CPU backend; XLA, sympy and numpy are trusted',
                  'floating point agreement is decided with the stated tolerances']),
              wall_s=round(time.time() - t0, 2), violations=len(violations))
    if only is None:
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as fh:
            json.dump(ev, fh, indent=1)
    for n, (unit, v) in enumerate(violations):
        rp = os.path.join(VERIF, 'evidence', 'replay')
        os.makedirs(rp, exist_ok=True)
        path = os.path.join(rp, f'{pid}-{n}.json')
        with open(path, 'w') as fh:
            json.dump(dict(property=pid, tier=tier, unit=unit, violation=v), fh, indent=1)
        print(f'VIOLATION property={pid} replay={path}')
        print('  ' + json.dumps(v)[:1500])
    print(f"{pid} {tier}: configurations={done}/{n_str} states={cov['states']} "
          f"transitions={cov['transitions']} traces={tot['traces']} "
          f"comparisons={tot['comparisons']} outcomes={len(outcomes)} "
          f"wall={ev['wall_s']}s")
    return 1 if violations else 0


def known_findings(pid):
    path = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(path):
        return []
    with open(path) as fh:
        return [k for k in json.load(fh)['findings'] if k['property'] == pid]


def match_known(known, unit, viol):
    for k in known:
        if all(unit.get(a) == b for a, b in k['unit'].items()) and \
                k['match'] in viol['what']:
            return k
    return None


def main(argv):
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick')
    ap.add_argument('--replay')
    ap.add_argument('--workers', type=int)
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args(argv)
    if a.replay:
        with open(a.replay) as fh:
            rep = json.load(fh)
        return explore(rep['property'], rep['tier'], only=[rep['unit']], verbose=True)
    return explore(a.property, a.tier, workers=a.workers, verbose=a.v)


if __name__ == '__main__':
    sys.exit(main(sys.argv[1:]))
