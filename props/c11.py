"""C11 PRBS checkers report exactly the positions that differ from the best-aligned reference, and the lock verdict."""
import functools
import numpy as np
import CommDspy as cdsp
from vf.core import Prop, Sub, call, same, close, expect, fail
from vf import gen as g
from props.c01 import TAPS, lfsr
from props.c10 import circ


@functools.lru_cache(None)
def period(order):
    """One period from the all-ones seed."""
    return lfsr(TAPS[order], [1] * order, 2 ** order - 1)[0]


def judge(out, n, want_sets, th, what):
    expect(isinstance(out, tuple) and len(out) == 3, f'{what}: expected (lost lock, correct bits, error bits)')
    lost, correct, err = out
    err = np.asarray(err)
    for w in want_sets:
        if err.shape == w.shape and np.array_equal(err.astype(bool), w) and np.all((err == 0) | (err == 1)):
            k = int(w.sum())
            expect(int(correct) == n - k, f'{what}: {int(correct)} correct bits reported for {n} bits with {k} errors')
            expect(bool(lost) == (k >= th), f'{what}: lost_lock={bool(lost)} with {k} errors and a threshold of {th}')
            return
    w = want_sets[0]
    fail(f'{what}: error positions {np.flatnonzero(err)[:8]} (count {int(np.sum(err))}, shape {err.shape}), expected {np.flatnonzero(w)[:8]} '
         f'(count {int(w.sum())}, shape {w.shape})')


def errs(draw, n):
    kind = g.pick(draw, 'none', 'few', 'rate', 'burst', 'random', 'ones', 'zeros')
    return dict(kind=kind, pos=[g.i(draw, 0, n - 1) for _ in range(g.i(draw, 1, 4))] if kind == 'few' else [],
                p=g.pick(draw, 0.01, 0.1, 0.3), seed=g.seed(draw))


def apply(e, d):
    r = np.random.default_rng(e['seed'])
    d = d.copy()
    n = len(d)
    if e['kind'] == 'few':
        for q in e['pos']:
            d[q] ^= 1
    elif e['kind'] == 'rate':
        d ^= (r.random(n) < e['p']).astype(d.dtype)
    elif e['kind'] == 'burst':
        s = int(r.integers(n))
        d[s:s + int(r.integers(1, 200))] ^= 1
    elif e['kind'] == 'random':
        d = r.integers(0, 2, n)
    elif e['kind'] == 'ones':
        d[:] = 1
    elif e['kind'] == 'zeros':
        d[:] = 0
    return d


def gen_chk(draw):
    order = g.pick(draw, 7, 7, 7, 9, 9, 11, 13, 15)
    P = 2 ** order - 1
    cap = 3 * P + 9 if order <= 11 else 2500
    if g.large():
        order = g.pick(draw, 7, 7, 9, 9, 11, 13, 15)
        P = 2 ** order - 1
        cap = 400
    n = g.size(draw, 1, cap, around=(P, 2 * P, 3 * P), big=100000)
    return dict(order=order, n=n, lock=g.b(draw), rot=g.pick(draw, 0, 0, P - 1, g.i(draw, 0, P - 1)), e=errs(draw, n),
                th=g.pick(draw, None, 1, 2, 5, n + 1, g.i(draw, 1, n + 1)), ref=g.pick(draw, 'none', 'none', 'same', 'rotated', 'inverted'),
                dt=g.pick(draw, 'int64', 'int64', 'int32'), lay=g.layout(draw))


def check_chk(c):
    order, P = c['order'], 2 ** c['order'] - 1
    base = period(order)
    ref = {'none': base, 'same': base, 'rotated': np.roll(base, 3), 'inverted': 1 - base}[c['ref']]
    sent = np.tile(np.roll(ref, -c['rot']), c['n'] // P + 1)[:c['n']].astype(c['dt'])
    data = apply(c['e'], sent)
    kw = {} if c['th'] is None else dict(loss_th=c['th'])
    if c['ref'] != 'none':
        kw['prbs_seq'] = ref.copy()
    th = 100 if c['th'] is None else c['th']
    out = call(cdsp.rx.prbs_checker, cdsp.PrbsEnum(order), g.lay(data, c['lay']), c['lock'], **kw)
    if c['lock']:
        ks = [0]
    else:
        m = min(P, c['n'])
        x = circ(ref * 2 - 1, data[:m].astype(np.int64) * 2 - 1)
        ks = np.flatnonzero(x == x.max())
    wants, long = {}, np.tile(ref, c['n'] // P + 2)
    for k in ks:
        w = data != long[k:k + c['n']]
        wants[w.tobytes()] = w
    judge(out, c['n'], list(wants.values()), th, f"prbs_checker PRBS{order} n={c['n']} init_lock={c['lock']}")


def gen_far(draw):
    order = g.pick(draw, 7, 7, 9)
    P = 2 ** order - 1
    n = g.i(draw, P, 3 * P)
    return dict(order=order, n=n, rot=g.i(draw, 0, P - 1), pos=sorted({g.i(draw, 0, n - 1) for _ in range(g.i(draw, 0, 12))}), th=g.i(draw, 1, 20))


def check_far(c):
    """Up to a dozen errors can never move the alignment of a whole period: positions are reported exactly."""
    order, P = c['order'], 2 ** c['order'] - 1
    data = np.tile(np.roll(period(order), -c['rot']), 4)[:c['n']].copy()
    want = np.zeros(c['n'], bool)
    want[c['pos']] = True
    data[want] ^= 1
    out = call(cdsp.rx.prbs_checker, cdsp.PrbsEnum(order), data, False, loss_th=c['th'])
    judge(out, c['n'], [want], c['th'], f'prbs_checker PRBS{order} with injected errors')


def gen_eco(draw):
    order = g.pick(draw, 7, 7, 9, 11, 13, 15, 31)
    n = g.size(draw, 2 * order - 1, 1500, around=(127, 254, 511, 2 * order, 3 * order), big=12000)
    return dict(order=order, n=n, sseed=g.seed(draw), e=errs(draw, n), front=[g.i(draw, 0, 2 * order - 2) for _ in range(g.i(draw, 0, 3))],
                th=g.pick(draw, None, 1, 1, 2, 5, g.i(draw, 1, n + 1)), dt=g.pick(draw, 'int64', 'int64', 'int32'), lay=g.layout(draw))


def check_eco(c):
    order, n = c['order'], c['n']
    r = np.random.default_rng(c['sseed'])
    seed = r.integers(0, 2, order)
    if not seed.any():
        seed[0] = 1
    data = apply(c['e'], lfsr(TAPS[order], seed, n)[0])
    for q in c['front']:
        data[q] ^= 1
    th = 100 if c['th'] is None else c['th']
    kw = {} if c['th'] is None else dict(loss_th=c['th'])
    out = call(cdsp.rx.prbs_checker_econ, cdsp.PrbsEnum(order), g.lay(data.astype(c['dt']), c['lay']), **kw)
    for s in range(order):
        ref = np.concatenate([data[s:s + order], lfsr(TAPS[order], data[s:s + order][::-1], n - s - order)[0]]) if n > s + order else data[s:s + order]
        w = data[s:] != ref
        if w.sum() < th:
            break
    judge(out, n, [w], th, f'prbs_checker_economy PRBS{order} n={n} (seeded at bit {s})')


def nt(c):
    return c['e']['kind'] != 'none'


def enum_long():
    return [dict(order=o, n=n, lock=l, rot=r, e=dict(kind='rate', p=p, seed=o), th=th, ref='none', dt='int64', lay='c')
            for o, n, l, r, p, th in ((7, 1100000, False, 5, 1e-4, 1000), (9, 1048577, True, 0, 1e-3, 2000), (15, 1300000, False, 20000, 0.01, 100), (13, 1111111, False, 77, 1e-5, 5))]


PROP = Prop('C11', [
    Sub('very_long', None, check_chk, 0, 0, enum=enum_long, rule='more than a million bits'),
    Sub('checker', gen_chk, check_chk, 3000, 40000, nontrivial=nt, rule='rotation, lengths around the period, error patterns, thresholds at the count, own reference sequence', big=80),
    Sub('injected', gen_far, check_far, 600, 8000, nontrivial=lambda c: len(c['pos']) > 0, rule='a few injected errors are located exactly'),
    Sub('economy', gen_eco, check_eco, 1200, 12000, nontrivial=lambda c: nt(c) or c['front'], rule='self-seeded checker incl. PRBS31, errors inside the seed', big=32),
], rule='PRBS order, alignment, data length (below, at, above multiples of the period), error pattern (none, single, random, burst, arbitrary data) and '
        'threshold drawn; oracle: bit-wise LFSR reference aligned by exact direct correlation (any best alignment accepted). Non-trivial: errors present.',
    assumptions=['data are bits; a supplied reference has one full period', 'the economy checker gets at least 2*order-1 bits'])
