"""Runner: generated-input search over sub-checks, shrinking, replay files and evidence."""
import hashlib
import json
import os
import random
import resource
import signal
import sys
import time
import traceback
from concurrent.futures import ProcessPoolExecutor, as_completed

import numpy as np
from hypothesis import HealthCheck, Phase, given, seed as hyp_seed, settings, strategies as st
from hypothesis import errors as hyp_errors

from . import boot
from . import gen as gen_mod
from . import sigs

CASE_LIMIT_S = 120      # one case normally takes milliseconds; a call that never returns is a failure
SHRINK_LIMIT_S = 45
SCALE = float(os.environ.get('VERIF_SCALE', '6'))       # quick-tier multiplier of the counts given in props/
LONG_LIMIT_S = 60       # very long fixed cases (seconds at most); above this they are left out
MEM_LIMIT = 6 << 30     # address space per worker
WORKERS = int(os.environ.get('VERIF_WORKERS', '8'))
_FORM = None            # random choice of the call form (defaults left out, positional), fixed by the case


class Violation(AssertionError):
    """The code under test broke the property on this case."""


class LibraryRaised(Violation):
    """The code under test raised on an input inside the property's domain."""


class _StopShrink(BaseException):
    pass


class _Hang(BaseException):
    pass


def fail(msg):
    raise Violation(msg)


def expect(cond, msg):
    if not cond:
        raise Violation(msg() if callable(msg) else msg)


def call(fn, *args, **kwargs):
    """Call the library; an exception on a valid input is a violation of the property under test."""
    args, kwargs = sigs.vary(fn, args, kwargs, _FORM)
    try:
        return fn(*args, **kwargs)
    except KeyboardInterrupt:
        raise
    except Exception as e:      # MemoryError included: every generated case needs far less than the limit set per worker
        name = getattr(fn, '__name__', str(fn))
        tb = traceback.extract_tb(e.__traceback__)[-1]
        raise LibraryRaised(f'{name} raised {type(e).__name__}: {e} (at {os.path.basename(tb.filename)}:{tb.lineno})') from e


def short(x, n=12):
    a = np.asarray(x).reshape(-1)
    return np.array2string(a[:n], precision=8) + ('...' if a.size > n else '') + f' shape={np.shape(x)}'


def same(got, want, what):
    """Exact equality of values and shape."""
    g, w = np.asarray(got), np.asarray(want)
    if g.shape != w.shape:
        raise Violation(f'{what}: shape {g.shape}, expected {w.shape}')
    if g.dtype == object:
        raise Violation(f'{what}: not a numeric array')
    bad = ~(g == w)
    if w.dtype.kind in 'iu' and g.dtype.kind == 'f' and w.size and int(np.abs(w).max()) >= 2 ** 53:    # beyond what a float holds
        bad = np.array([not (np.isfinite(a) and int(a) == int(b)) for a, b in zip(g.ravel(), w.ravel())]).reshape(w.shape)
    if bad.any():
        i = tuple(int(v) for v in np.argwhere(bad)[0]) if g.ndim else ()
        raise Violation(f'{what}: {int(bad.sum())} of {g.size} values differ, first at {i}: got {g[i]!r}, expected {w[i]!r}')


def close(got, want, what, rtol=1e-7, atol=1e-9):
    """Equality up to rounding, and equal shape.  atol is scaled by the largest expected magnitude."""
    g, w = np.asarray(got), np.asarray(want)
    if g.shape != w.shape:
        raise Violation(f'{what}: shape {g.shape}, expected {w.shape}')
    if g.dtype == object:
        raise Violation(f'{what}: not a numeric array')
    if g.size == 0:
        return
    scale = max(1.0, float(np.max(np.abs(w))))
    bad = ~(np.abs(g - w) <= atol * scale + rtol * np.abs(w))
    if bad.any():
        i = tuple(int(v) for v in np.argwhere(bad)[0]) if g.ndim else ()
        raise Violation(f'{what}: {int(bad.sum())} of {g.size} values differ, first at {i}: got {g[i]!r}, expected {w[i]!r}')


class Sub:
    """One executable facet of a property.

    gen(draw) -> JSON-friendly case;  check(case) raises Violation;  nontrivial(case) -> bool;
    enum() -> optional deterministic list of cases always run (boundary / exhaustive small scope).
    """

    def __init__(self, name, gen, check, quick, thorough=None, nontrivial=None, enum=None, rule='', big=0):
        self.name, self.gen, self.check = name, gen, check
        self.quick, self.thorough = quick, max(thorough or 0, quick * 20)
        self.nontrivial = nontrivial or (lambda c: True)
        self.enum = enum
        self.rule = rule
        self.long = name == 'very_long' or name.startswith('long_')     # time and memory limits give no verdict here
        self.big = big      # number of cases drawn with sizes far beyond the usual range (see gen.size)


class Prop:
    def __init__(self, pid, subs, rule, assumptions=(), findings=None):
        self.pid, self.subs, self.rule, self.assumptions = pid, subs, rule, list(assumptions)
        self.findings = findings      # callable -> list of known-finding texts observed on this tree


def case_hash(case):
    return hashlib.sha1(json.dumps(case, sort_keys=True).encode()).hexdigest()


def _jsonable(x):
    if isinstance(x, dict):
        return {str(k): _jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [_jsonable(v) for v in x]
    if isinstance(x, np.generic):
        return x.item()
    if isinstance(x, np.ndarray):
        return x.tolist()
    return x


def _alarm(_sig, _frm):
    raise _Hang()


def run_case(sub, case):
    """Run one case deterministically.  Returns None or a failure message; other exceptions propagate."""
    case = json.loads(json.dumps(case))
    global _FORM
    np.random.seed(int(case_hash(case)[:8], 16))
    _FORM = random.Random(case_hash(case))
    old = signal.signal(signal.SIGALRM, _alarm)
    limit = LONG_LIMIT_S if sub.long else CASE_LIMIT_S
    signal.alarm(limit)
    try:
        sub.check(case)
        return None
    except Violation as e:
        return f'{type(e).__name__}: {e}'
    except _Hang:
        return f'Hang: the call did not return within {limit} s'
    except MemoryError:
        if sub.long:
            return 'Hang: out of memory'
        raise
    except KeyboardInterrupt:
        raise
    except Exception as e:
        # the judge itself never raises on well-formed results: the result had an unusable type or form
        tb = traceback.extract_tb(e.__traceback__)[-1]
        return f'UnusableResult: {type(e).__name__}: {e} (at {os.path.basename(tb.filename)}:{tb.lineno})'
    finally:
        _FORM = None
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)


class _Fail(AssertionError):
    pass


def _plain(sub, n, seed, one, st8):
    """Independent draws; the first failure is shrunk by making its recorded choices smaller one after another."""
    rng = random.Random(seed)
    made = None
    for _ in range(n):
        d = gen_mod.Plain(rng)
        try:
            one(sub.gen(d))
        except _Fail:
            made = d.made
            break
    if made is None:
        return

    def fails(ch):
        d = gen_mod.Plain(None, ch)
        try:
            case = sub.gen(d)
        except Exception:
            return None
        try:
            one(case)
        except _Fail:
            return d.made
        return None
    tried = set()
    better = True
    while better:
        better = False
        for k in range(len(made) - 1, -1, -1):
            if k >= len(made):
                continue
            v = made[k]
            for w in [0] + ([v // 2, v - v // 8 - 1, v - 1] if v > 1 else []):
                ch = made[:k] + [w] + made[k + 1:]
                if w >= v or tuple(ch) in tried:
                    continue
                tried.add(tuple(ch))
                got = fails(ch)
                if got is not None and (len(got), got) < (len(made), made):
                    made, better = got, True
                    break


def _search(sub, n, seed, deadline, plain=False):
    """Search for one work item: Hypothesis, or independent draws."""
    stats = dict(sub=sub.name, evaluations=0, hashes=set(), samples=[], failure=None, error=None, cut=False)
    st8 = dict(first=None, best=None, best_len=None, msg=None)

    def one(case):
        case = _jsonable(case)
        if st8['first'] is not None and time.time() - st8['first'] > SHRINK_LIMIT_S:
            raise _StopShrink()
        if st8['first'] is None and time.time() > deadline:
            stats['cut'] = True
            raise _StopShrink()
        stats['evaluations'] += 1
        if sub.nontrivial(case):
            stats['hashes'].add(case_hash(case)[:16])
            if len(stats['samples']) < 2 and len(json.dumps(case)) < 1500:
                stats['samples'].append(case)
        msg = run_case(sub, case)
        if msg is not None:
            size = len(json.dumps(case))
            if st8['best'] is None or size <= st8['best_len']:
                st8.update(best=case, best_len=size, msg=msg)
            if st8['first'] is None:
                st8['first'] = time.time()
            if msg.startswith('Hang'):
                raise _StopShrink()
            raise _Fail(msg.split(':')[0])

    if plain:
        try:
            _plain(sub, n, seed, one, st8)
        except _StopShrink:
            pass
        except BaseException as e:
            stats['error'] = f'{sub.name}: ' + ''.join(traceback.format_exception(e))[-1800:]
        if st8['best'] is not None:
            stats['failure'] = (st8['best'], st8['msg'])
        return stats

    @hyp_seed(seed)
    @settings(max_examples=n, database=None, deadline=None, derandomize=False, report_multiple_bugs=False,
              print_blob=False, suppress_health_check=list(HealthCheck),
              phases=(Phase.generate, Phase.target, Phase.shrink))
    @given(st.composite(lambda draw: sub.gen(draw))())
    def prop(case):
        one(case)

    try:
        prop()
    except _StopShrink:
        pass
    except (_Fail, hyp_errors.Flaky):
        pass
    except BaseException as e:          # generator or harness fault
        if isinstance(e, BaseExceptionGroup) and st8['best'] is not None:
            pass
        else:
            stats['error'] = f'{sub.name}: ' + ''.join(traceback.format_exception(e))[-1800:]
    if st8['best'] is not None:
        stats['failure'] = (st8['best'], st8['msg'])
    return stats


def _enumerate(sub, part, parts, deadline):
    stats = dict(sub=sub.name, evaluations=0, hashes=set(), samples=[], failure=None, error=None, cut=False)
    try:
        for i, case in enumerate(sub.enum()):
            if i % parts != part:
                continue
            if time.time() > deadline:
                stats['cut'] = True
                break
            case = _jsonable(case)
            stats['evaluations'] += 1
            if sub.nontrivial(case):
                stats['hashes'].add(case_hash(case)[:16])
                if not stats['samples'] and len(json.dumps(case)) < 1500:
                    stats['samples'].append(case)
            msg = run_case(sub, case)
            if msg is not None and sub.long and (msg.startswith('Hang') or 'MemoryError' in msg):
                stats['cut'] = True         # slow or hungry on a very long input: no answer for this case, not an alarm
                continue
            if msg is not None:
                stats['failure'] = (case, msg)
                break
    except BaseException as e:
        stats['error'] = f'{sub.name}: ' + ''.join(traceback.format_exception(e))[-1800:]
    return stats


_PROP = None


def _limit():
    try:
        resource.setrlimit(resource.RLIMIT_AS, (MEM_LIMIT, MEM_LIMIT))
    except (ValueError, OSError):
        pass


def _work(item):
    kind, idx, a, b, deadline = item
    sub = _PROP.subs[idx]
    if kind == 'enum':
        return _enumerate(sub, a, b, deadline)
    gen_mod.set_large(kind == 'big')
    try:
        return _search(sub, a, b >> 1, deadline, plain=bool(b & 1))
    finally:
        gen_mod.set_large(False)


def run_property(prop, tier, seed):
    global _PROP
    _PROP = prop
    t0 = time.time()
    budget = 600 if tier == 'quick' else 6 * 3600
    budget = float(os.environ.get('VERIF_BUDGET_S', budget))
    only = os.environ.get('VERIF_SUB')
    deadline = t0 + budget
    items = []
    for idx, sub in enumerate(prop.subs):
        if only and sub.name not in only.split(','):
            continue
        if sub.enum is not None:
            parts = WORKERS if tier == 'thorough' else 4
            items += [('enum', idx, p, parts, deadline) for p in range(parts)]
        n = int(sub.quick * SCALE) if tier == 'quick' else sub.thorough
        if sub.gen is None or n <= 0:
            continue
        shards = max(1, min(WORKERS, n // 20)) if tier == 'quick' else max(1, min(4 * WORKERS, n // 50))
        for s in range(shards):
            h = hashlib.sha256(f'{seed}/{prop.pid}/{sub.name}/{s}'.encode()).hexdigest()
            items.append(('gen', idx, max(1, n // shards), int(h[:12], 16) * 2 + s % 2, deadline))
    for idx, sub in enumerate(prop.subs):
        if not sub.big or (only and sub.name not in only.split(',')):
            continue
        n = int(sub.big * SCALE) if tier == 'quick' else sub.big * 20
        shards = max(1, min(WORKERS if tier == 'quick' else 4 * WORKERS, n // 6))
        for s in range(shards):
            h = hashlib.sha256(f'{seed}/{prop.pid}/{sub.name}/big/{s}'.encode()).hexdigest()
            items.append(('big', idx, max(1, n // shards), int(h[:12], 16) * 2 + s % 2, deadline))
    agg = {s.name: dict(evaluations=0, hashes=set(), samples=[]) for s in prop.subs}
    failures, errors, cut = {}, [], False
    with ProcessPoolExecutor(max_workers=WORKERS, initializer=_limit) as ex:
        futs = [ex.submit(_work, it) for it in items]
        for f in as_completed(futs):
            try:
                r = f.result()
            except Exception as e:
                errors.append(f'worker: {e!r}')
                continue
            a = agg[r['sub']]
            a['evaluations'] += r['evaluations']
            a['hashes'] |= r['hashes']
            a['samples'] = (a['samples'] + r['samples'])[:3]
            cut = cut or r['cut']
            if r['error']:
                errors.append(r['error'])
            if r['failure']:
                case, msg = r['failure']
                old = failures.get(r['sub'])
                if old is None or len(json.dumps(case)) < len(json.dumps(old[0])):
                    failures[r['sub']] = (case, msg)
                if tier == 'quick' and not os.environ.get('VERIF_ALL'):
                    break       # a shrunk counterexample is in hand: enough to decide
        _drain(ex)
    findings = []
    if prop.findings is not None and not failures:
        try:
            findings = prop.findings()
        except Violation as e:
            failures['findings'] = ({'finding': True}, str(e))
    replays = []
    for name, (case, msg) in sorted(failures.items()):
        os.makedirs(os.path.join(boot.VERIF, 'replays'), exist_ok=True)
        path = os.path.join(boot.VERIF, 'replays', f'{prop.pid}_{name}_{case_hash(case)[:10]}.json')
        with open(path, 'w') as fh:
            json.dump(dict(property=prop.pid, sub=name, case=case, message=msg, seed=seed, tier=tier), fh, indent=1)
        replays.append(path)
        print(f'[{prop.pid}/{name}] {msg}')
    ev = dict(property=prop.pid, tier=tier, seed=seed, level='exploration',
              coverage=dict(
                  evaluations=sum(a['evaluations'] for a in agg.values()),
                  distinct_nontrivial=sum(len(a['hashes']) for a in agg.values()),
                  rule=prop.rule,
                  samples=[dict(sub=n, case=c) for n, a in agg.items() for c in a['samples'][:2]],
                  per_facet={n: dict(evaluations=a['evaluations'], distinct_nontrivial=len(a['hashes'])) for n, a in agg.items()},
                  facets={s.name: s.rule for s in prop.subs if s.rule},
                  stopped_by_time_budget=cut),
              assumptions=prop.assumptions, wall_s=round(time.time() - t0, 2), violations=len(failures))
    os.makedirs(os.path.join(boot.VERIF, 'evidence'), exist_ok=True)
    if boot.REPO == '/repo':
        with open(os.path.join(boot.VERIF, 'evidence', f'{prop.pid}.json'), 'w') as fh:
            json.dump(ev, fh, indent=1)
    for t in findings:
        print(f'KNOWN-FINDING: property={prop.pid} {t}')
    print(f'{prop.pid} tier={tier} seed={seed} evaluations={ev["coverage"]["evaluations"]} '
          f'distinct_nontrivial={ev["coverage"]["distinct_nontrivial"]} wall={ev["wall_s"]}s violations={len(failures)}')
    if failures:
        for p in replays:
            print(f'VIOLATION property={prop.pid} replay={p}')
        return 1
    if errors:
        print('HARNESS ERROR\n' + '\n'.join(errors[:1]), file=sys.stderr)
        return 2
    return 0


def _drain(ex):
    """Do not wait for shrinking searches of other shards once a failure is in hand."""
    procs = list((getattr(ex, '_processes', None) or {}).values())
    ex.shutdown(wait=False, cancel_futures=True)
    for p in procs:
        try:
            p.kill()
        except Exception:
            pass


def replay(prop, rec):
    sub = next(s for s in prop.subs if s.name == rec['sub'])
    msg = run_case(sub, rec['case'])
    if msg is None:
        print(f'{prop.pid}/{sub.name}: the recorded case holds now')
        return 0
    print(f'[{prop.pid}/{sub.name}] {msg}')
    print(json.dumps(rec['case'])[:2000])
    return 1
