"""C10 pattern locking returns the whole pattern, rotated to the best alignment with the signal."""
import numpy as np
import CommDspy as cdsp
from vf.core import Prop, Sub, call, same, close, expect, fail
from vf import gen as g
from props.c01 import ALL


def circ(p, s):
    """Exact correlation of the repeated pattern with s at every rotation (direct sums, no FFT)."""
    P, m = len(p), len(s)
    rep = np.tile(p, 2)
    if P * m <= 4_000_000:
        win = np.lib.stride_tricks.sliding_window_view(rep, m)[:P]
        return win @ s
    return np.array([rep[k:k + m] @ s for k in range(P)])


def judge(p, s, out, binary, what):
    expect(isinstance(out, tuple) and len(out) == 2, f'{what}: expected (pattern, correlation)')
    locked, xcorr = np.asarray(out[0]), np.asarray(out[1])
    P = len(p)
    expect(locked.shape == (P,), f'{what}: locked pattern has shape {locked.shape}, the pattern has {P} symbols')
    m = min(P, len(s))
    pn, sn = (p.astype(float) * 2 - 1, s[:m].astype(float) * 2 - 1) if binary else (p.astype(float), s[:m].astype(float))
    ref = circ(pn, sn)
    tol = 1e-9 * (np.abs(pn).max() * np.abs(sn).sum() + 1)
    expect(xcorr.shape == (2 * P - m + 1,), f'{what}: correlation has {xcorr.shape} values, expected {2 * P - m + 1}')
    close(xcorr, np.tile(ref, 2)[:len(xcorr)], f'{what}: returned correlation', 1e-9, max(tol, 1e-9))
    best = ref.max()
    ks = np.flatnonzero(ref >= best - 2 * tol)
    twice, cand = np.tile(p, 2), ks
    for j in range(P):          # narrow the candidate rotations sample by sample
        if len(cand) <= 4:
            break
        cand = cand[twice[cand + j] == locked[j]]
    expect(any(np.array_equal(locked, np.roll(p, -int(k))) for k in cand[:4]),
           lambda: f'{what}: the returned pattern is not a rotation of maximal correlation (best {best} at {ks[:5]}, pattern of {P}, signal of {len(s)})')


DT = ('int64', 'int64', 'int32', 'float64')


def gen_bin(draw):
    if g.b(draw):
        order = g.pick(draw, 3, 5, 7, 7, 9, 11) if not g.large() else g.pick(draw, 10, 11, 12)
        pat, P = dict(prbs=order), 2 ** order - 1
    else:
        P = g.size(draw, 1, 1200, big=5000)
        pat = g.ints(draw, P, 0, 1)
    n = g.size(draw, 1, 3 * P + 5, around=(P, 2 * P))
    return dict(pat=pat, P=P, n=n, rot=g.pick(draw, 0, P - 1, P // 2, g.i(draw, 0, P - 1)), flip=g.pick(draw, 0.0, 0.0, 0.05, 0.3, 0.5), inv=g.pick(draw, False, False, True),
                fseed=g.seed(draw), dt=g.pick(draw, *DT), sdt=g.pick(draw, None, None, *DT), lay=g.layout(draw))


def pattern(c):
    if 'prbs' in c['pat']:
        k = c['pat']['prbs']
        w = [1] * k
        for n in range(2 ** k - 1 - k):
            b = 0
            for t in ALL[k]:
                b ^= w[-t]
            w.append(b)
        return np.array(w[:2 ** k - 1])
    return g.expand(c['pat'])


def check_bin(c):
    p = pattern(c).astype(c['dt'])
    r = np.random.default_rng(c['fseed'])
    P = len(p)
    s = np.tile(np.roll(p, -c['rot']), c['n'] // P + 1)[:c['n']]
    s = np.where(r.random(len(s)) < c['flip'], 1 - s, s).astype(c['dt'])
    if c['inv']:
        s = 1 - s
    if c.get('sdt'):
        s = s.astype(c['sdt'])
    out = call(cdsp.rx.lock_pattern_to_signal_binary, g.lay(p, c['lay']), g.lay(s, c['lay']))
    judge(p, s, out, True, f'lock_pattern_to_signal_binary P={P} signal={len(s)}')
    if c['flip'] == 0 and not c['inv'] and len(s) >= P:
        same(out[0], np.roll(p, -c['rot']), 'pattern locked to an error-free rotated signal of at least one period')


def gen_sym(draw):
    P = g.size(draw, 1, 1500, big=5000)
    n = g.size(draw, 1, 3 * P + 5, around=(P, 2 * P))
    kind = g.pick(draw, 'levels', 'levels', 'symbols', 'float', 'adc', 'quantised')
    return dict(P=P, n=n, kind=kind, pseed=g.seed(draw), rot=g.pick(draw, 0, P - 1, g.i(draw, 0, P - 1)), noise=g.pick(draw, 0.0, 0.0, 0.1, 1.0), gain=g.pick(draw, 1.0, 1.0, 0.01, 30.0, -1.0), lay=g.layout(draw))


def check_sym(c):
    r = np.random.default_rng(c['pseed'])
    P = c['P']
    if c['kind'] == 'levels':
        p = r.choice([-3, -1, 1, 3], P)
    elif c['kind'] == 'symbols':
        p = r.integers(0, 4, P)
    elif c['kind'] == 'adc':
        p = r.integers(-128, 128, P) if c['pseed'] % 2 else r.integers(-30000, 30000, P)
    elif c['kind'] == 'quantised':      # real pattern, converter codes
        p = r.choice([-3, -1, 1, 3], P) / np.sqrt(5)
    else:
        p = r.normal(size=P)
    s = np.tile(np.roll(p, -c['rot']), c['n'] // P + 1)[:c['n']]
    if c['noise'] or c['gain'] != 1.0:
        s = s * c['gain'] + r.normal(size=len(s)) * c['noise']
    if c['kind'] == 'quantised':
        s = np.round(s * 20).astype(int)
    out = call(cdsp.rx.lock_pattern_to_signal, g.lay(p, c['lay']), g.lay(s, c['lay']))
    judge(p, s, out, False, f"lock_pattern_to_signal {c['kind']} P={P} signal={len(s)}")
    if c['noise'] == 0 and c['gain'] > 0 and len(s) >= P and c['kind'] not in ('float', 'quantised'):
        same(out[0], np.roll(p, -c['rot']), 'pattern locked to a clean rotated signal of at least one period')


def circ_int(p, s):
    """Integer correlation at every rotation through a real FFT, rounded to the exact integers."""
    n = 1 << int(np.ceil(np.log2(3 * len(p))))
    f = np.fft.irfft(np.fft.rfft(np.tile(p, 2), n) * np.conj(np.fft.rfft(s, n)), n)[:len(p)]
    return np.round(f).astype(int)


def circ_real(p, s):
    n = 1 << int(np.ceil(np.log2(3 * len(p))))
    return np.fft.irfft(np.fft.rfft(np.tile(p, 2), n) * np.conj(np.fft.rfft(s, n)), n)[:len(p)]


def gen_long(draw):
    P = g.i(draw, 5001, 80000) if g.large() else g.i(draw, 5001, 24000)
    return dict(P=P, rot=g.pick(draw, 0, 1, P - 1, P // 2, g.i(draw, 0, P - 1), g.i(draw, 0, P - 1)), n=g.pick(draw, P, P, P + 1, 2 * P + 5, P // 2, g.i(draw, 1, 3 * P)), seed=g.seed(draw),
                binary=g.b(draw), kind=g.pick(draw, 'random', 'sparse', 'runs', 'repeat'), flip=g.pick(draw, 0.0, 0.0, 0.01, 0.3), noise=g.pick(draw, 0.0, 0.0, 0.5, 2.0))


def check_long(c):
    r = np.random.default_rng(c['seed'])
    P = c['P']
    vals = np.array([0, 1]) if c['binary'] else np.array([-3, -1, 1, 3])
    if c['kind'] == 'sparse':
        p = np.full(P, vals[0])
        p[r.integers(0, P, 3)] = vals[-1]
    elif c['kind'] == 'runs':
        p = vals[(np.cumsum(r.random(P) < 0.01) + r.integers(0, 9)) % len(vals)]
    elif c['kind'] == 'repeat':          # nearly periodic: the halves differ in one place only
        h = r.choice(vals, (P + 1) // 2)
        p = np.concatenate([h, h])[:P]
        q = int(r.integers(P))
        p[q] = vals[-1] if p[q] != vals[-1] else vals[0]
    else:
        p = r.choice(vals, P)
    s = np.tile(np.roll(p, -c['rot']), c['n'] // P + 1)[:c['n']]
    s = np.where(r.random(len(s)) < c['flip'], r.choice(vals, len(s)), s)
    noisy = c.get('noise') and not c['binary']
    if noisy:
        s = s * 0.7 + r.normal(size=len(s)) * c['noise']
    what = f"pattern of {P} ({c['kind']}, binary={c['binary']}), signal of {len(s)}, rotation {c['rot']}, {c['flip']} errors"
    out = call(cdsp.rx.lock_pattern_to_signal_binary if c['binary'] else cdsp.rx.lock_pattern_to_signal, p.copy(), s.copy())
    locked = np.asarray(out[0])
    expect(locked.shape == (P,), f'{what}: locked pattern has shape {locked.shape}')
    m = min(P, len(s))
    ref = circ_int(2 * p - 1, 2 * s[:m] - 1) if c['binary'] else None if noisy else circ_int(p, s[:m])
    tol = 0
    if noisy:
        ref = circ_real(p, s[:m])
        tol = 1e-9 * (3 * np.abs(s).sum() + 1)
    ks = np.flatnonzero(ref >= ref.max() - tol)
    expect(any(np.array_equal(locked, np.roll(p, -int(k))) for k in ks[:50]) or len(ks) > 50,
           lambda: f'{what}: the returned pattern is not a rotation of maximal correlation (best {ref.max()} at {ks[:5]})')


def enum_big():
    out = []
    for P in (8191, 20000, 32767):
        for rot in (0, 1, P - 1, P // 3):
            out.append(dict(P=P, rot=rot, n=P, seed=P + rot))
    out += [dict(P=P, rot=rot, n=n, seed=P + rot) for P in (32768, 40000, 65535, 70001) for rot, n in ((P // 2, P), (3, 2 * P + 5))]
    out += [dict(P=32767, rot=7, n=500, seed=3), dict(P=8191, rot=8000, n=30000, seed=4)]
    return out


def check_big(c):
    r = np.random.default_rng(c['seed'])
    for binary in (True, False):
        p = r.integers(0, 2, c['P']) if binary else r.choice([-3, -1, 1, 3], c['P'])
        s = np.tile(np.roll(p, -c['rot']), c['n'] // c['P'] + 1)[:c['n']]
        fn = cdsp.rx.lock_pattern_to_signal_binary if binary else cdsp.rx.lock_pattern_to_signal
        out = call(fn, p.copy(), s.copy())
        same(out[0], np.roll(p, -c['rot']), f"long pattern (P={c['P']}, rotation {c['rot']}, signal {c['n']})")


PROP = Prop('C10', [
    Sub('binary', gen_bin, check_bin, 2500, 40000, nontrivial=lambda c: c['rot'] != 0, rule='binary patterns (PRBS and arbitrary) against noisy rotated signals', big=64),
    Sub('symbols', gen_sym, check_sym, 1500, 25000, nontrivial=lambda c: c['rot'] != 0, rule='multi-level / real patterns, noise and gain', big=64),
    Sub('verylong', gen_long, check_long, 120, 3000, nontrivial=lambda c: c['rot'] != 0, rule='patterns of 5000 to 80000 symbols (random, sparse, runs, nearly periodic), errors', big=24),
    Sub('long', None, check_big, 0, 0, enum=enum_big, rule='long patterns, where correlation goes through the FFT'),
], rule='pattern, rotation, signal length (shorter, equal, longer than the pattern), bit flips / noise / gain drawn; oracle: direct-sum correlation at '
        'every rotation, any maximiser accepted, the exact rotation demanded for clean signals covering the pattern. Non-trivial: rotation not 0.',
    assumptions=['alignment uses the first min(len(pattern), len(signal)) samples'])
