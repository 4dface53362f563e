"""C16 added noise has the requested power and is white Gaussian; random jitter moves whole symbols by the requested amount."""
import numpy as np
from scipy.interpolate import CubicSpline
from scipy.special import ndtr
import CommDspy as cdsp
from vf.core import Prop, Sub, call, same, close, expect, fail
from vf import gen as g
from props.c14 import gen_taps, taps

Z = 6.5     # acceptance in standard deviations of each estimator (two-sided p < 1e-10 per statistic)


def gen_noise(draw):
    return dict(n=g.pick(draw, 4000, 10000, 20000, 160000), snr=g.grid_float(draw, -50.0, 80.0, 26), sseed=g.seed(draw), kind=g.pick(draw, 'pam', 'dc', 'offset', 'sine', 'normal', 'ook'),
                scale=g.pick(draw, 1.0, 1e-3, 250.0), two=g.b(draw), lay=g.layout(draw), isint=g.b(draw))


def signal(c):
    r = np.random.default_rng(c['sseed'])
    n = c['n']
    x = {'pam': lambda: r.choice([-3., -1, 1, 3], n), 'dc': lambda: np.full(n, 2.0), 'offset': lambda: r.choice([-1., 1], n) + 4,
         'sine': lambda: np.sin(np.arange(n) * 0.37), 'normal': lambda: r.normal(size=n), 'ook': lambda: r.choice([0., 1], n)}[c['kind']]()
    if c.get('isint') and c['kind'] in ('pam', 'dc', 'ook', 'offset'):
        return x.astype(int)
    return x * c['scale']


def judge(noise, x, power_ref, snr, what):
    n = noise.size
    v = np.asarray(noise, float).reshape(-1)
    xs = np.asarray(x, float).reshape(-1)
    want = power_ref / 10 ** (snr / 10)
    p = float(np.mean(v ** 2))
    tol = Z * np.sqrt(2.0 / n) + 3.0 / n
    expect(abs(p / want - 1) <= tol, f'{what}: noise power {p}, expected {want} ({10 * np.log10(want / p):.2f} dB off, tolerance {100 * tol:.1f}%)')
    s = np.sqrt(want)
    expect(abs(v.mean()) <= Z * s / np.sqrt(n), f'{what}: noise mean {v.mean()} with deviation {s}')
    for lag in (1, 2, 3):
        q = float(np.mean(v[lag:] * v[:-lag]) / want)
        expect(abs(q) <= Z / np.sqrt(n - lag), f'{what}: noise correlated at lag {lag}: {q}')
    xc = xs - xs.mean()
    if xc.std() > 1e-9 * (abs(xs).max() + 1e-300):
        q = float(np.mean(v * xc) / (s * xc.std()))
        expect(abs(q) <= Z / np.sqrt(n), f'{what}: noise correlated with the signal: {q}')
        e2 = xc ** 2 - np.mean(xc ** 2)
        if e2.std() > 1e-6 * np.mean(xc ** 2):
            q = float(np.mean((v ** 2 / want - 1) * e2) / (np.sqrt(2) * e2.std()))
            expect(abs(q) <= 2 * Z / np.sqrt(n), f'{what}: noise power follows the signal level: {q}')
    k = float(np.mean((v / s) ** 4) - 3)
    expect(abs(k) <= Z * np.sqrt(96.0 / n) + 6 * tol, f'{what}: noise is not Gaussian, excess kurtosis {k}')
    # every lag, forwards and mirrored: a repeated or reflected stretch of noise stands out
    m = 1 << int(np.ceil(np.log2(2 * n)))
    F = np.fft.rfft(v / s, m)
    acf = np.fft.irfft(F * np.conj(F), m)[1:n]
    k = int(np.argmax(np.abs(acf)))
    expect(abs(acf[k]) <= 9 * np.sqrt(n) + 60, lambda: f'{what}: noise repeats itself at lag {k + 1} (correlation {acf[k] / n:.3f})')
    con = np.fft.irfft(F * F, m)
    k = int(np.argmax(np.abs(con)))
    expect(abs(con[k]) <= 9 * np.sqrt(2 * n) + 120, lambda: f'{what}: noise is mirrored around sample {k / 2} (correlation {con[k] / n:.3f})')
    # distribution: empirical distribution function (Dvoretzky-Kiefer-Wolfowitz bound), tails
    u = np.sort(v / s)
    cdf = ndtr(u)
    dev = float(np.max(np.abs(cdf - (np.arange(n) + 0.5) / n)))
    expect(dev <= np.sqrt(np.log(2 / 1e-11) / (2 * n)) + 3.0 / n, f'{what}: noise distribution is {dev} away from the Gaussian')
    q3 = 2 * ndtr(-3.0) * n
    if q3 > 40:
        out = int(np.sum(np.abs(u) > 3))
        expect(abs(out - q3) <= Z * np.sqrt(q3) + 4, f'{what}: {out} of {n} noise samples beyond 3 deviations, expected {q3:.0f}')
    expect(float(np.max(np.abs(u))) <= 8.5, f'{what}: noise sample of {np.max(np.abs(u))} deviations')
    for b in np.array_split(v, 16):
        r = float(np.mean(b ** 2) / want)
        expect(abs(r - 1) <= 1.3 * Z * np.sqrt(2.0 / len(b)), f'{what}: noise power changes along the signal (block power {r} of the requested)')
    h = n // 2
    r = float(np.mean(v[:h] ** 2) / np.mean(v[h:] ** 2))
    expect(abs(r - 1) <= 2.5 * Z * np.sqrt(2.0 / h), f'{what}: noise power changes along the signal (ratio {r})')


def check_noise(c):
    x = signal(c)
    if c['two']:
        x = x.reshape(-1, 8)
    what = f"awgn {c['kind']} n={c['n']} snr={c['snr']} dB"
    y = np.asarray(call(cdsp.channel.awgn, g.lay(x, c['lay']) if not c['two'] else x.copy(), c['snr']))
    expect(y.shape == x.shape, f'{what}: output shape {y.shape}, input {x.shape}')
    y2 = np.asarray(call(cdsp.channel.awgn, x.copy(), c['snr']))
    expect(not np.array_equal(y, y2), f'{what}: two calls add the same noise')
    n1, n2 = (np.asarray(q, float).reshape(-1) - np.asarray(x, float).reshape(-1) for q in (y, y2))
    s = float(np.sqrt(np.mean(np.asarray(x, float) ** 2) / 10 ** (c['snr'] / 10)))
    m = 1 << int(np.ceil(np.log2(2 * len(n1))))
    F1, F2 = np.fft.rfft(n1 / s, m), np.fft.rfft(n2 / s, m)
    for F in (F1 * np.conj(F2), F1 * F2):
        k = float(np.max(np.abs(np.fft.irfft(F, m))))
        expect(k <= 9 * np.sqrt(len(n1)) + 60, f'{what}: the noise of two calls is correlated ({k / len(n1):.3f})')
    judge(y - x, x, float(np.mean(np.asarray(x, float) ** 2)), c['snr'], what)


def gen_ch(draw):
    c = gen_noise(draw)
    c['t'] = gen_taps(draw)
    if sum(abs(v) for v in c['t']['b']) < 0.1:
        c['t']['b'][0] = 1.0
    return c


def check_ch(c):
    x = signal(c)
    b_, a, _ = taps(c['t'])
    clean, z0 = call(cdsp.channel.awgn_channel, x.copy(), b_, a)
    if np.mean(np.asarray(clean) ** 2) < 1e-4 * np.mean(np.asarray(x, float) ** 2):
        return          # the channel nulls this signal: nothing to measure against
    y, z1 = call(cdsp.channel.awgn_channel, x.copy(), b_, a, c['snr'])
    what = f"awgn_channel {c['kind']} n={c['n']} snr={c['snr']} dB"
    close(z1, z0, f'{what}: channel memory with and without noise', 1e-12, 1e-12)
    expect(np.shape(y) == np.shape(clean), f'{what}: output shape {np.shape(y)}')
    judge(np.asarray(y) - clean, clean, float(np.mean(np.asarray(clean) ** 2)), c['snr'], what)


def gen_jit(draw):
    osr = g.pick(draw, 2, 3, 4, 8, 16, 32, 5)
    return dict(osr=osr, span=g.pick(draw, 3, 4, 8), n=g.pick(draw, 200, 600, 2000) if osr <= 8 else g.pick(draw, 200, 600), rj=g.pick(draw, 0.002, 0.005, 0.01) if osr < 5 else g.pick(draw, 0.003, 0.01, 0.02, 0.05, 0.08), beta=g.pick(draw, 0.5, 0.9, 0.3),
                pulse=g.pick(draw, 'rcos', 'rrc', 'rcos', 'rrc', 'sinc'), sseed=g.seed(draw), lead=g.pick(draw, 0, 0, 1, 20), lev=g.pick(draw, 2, 4), scale=g.pick(draw, 1.0, 1.0, 0.01, 60.0), isint=g.b(draw))


def refine(f, f1, tm, ym, d):
    """Damped Gauss-Newton, symbol by symbol."""
    err = np.sum((f(tm + d[:, None]) - ym) ** 2, axis=1)
    step = np.ones(len(d))
    for _ in range(16):
        res, j = f(tm + d[:, None]) - ym, f1(tm + d[:, None])
        den = np.sum(j * j, axis=1)
        nd = d - step * np.where(den > 0, np.sum(res * j, axis=1) / np.maximum(den, 1e-300), 0)
        ne = np.sum((f(tm + nd[:, None]) - ym) ** 2, axis=1)
        ok = ne < err
        d, err, step = np.where(ok, nd, d), np.where(ok, ne, err), np.where(ok, np.minimum(1, 2 * step), step / 4)
    return d, err


def displacement(c, base, y, what):
    """Time shift of every symbol (least squares on the interpolated clean waveform), and which symbols determine it well."""
    osr = c['osr']
    t = np.arange(len(base)) / osr
    f = CubicSpline(t, base)
    f1 = f.derivative()
    lo, hi = (2 if c['lead'] else c['span'] + 2), c['n'] - 2
    tm, ym = t.reshape(-1, osr)[lo:hi], np.asarray(y).reshape(-1, osr)[lo:hi]
    # grid search then Gauss-Newton
    d, best = np.zeros(len(tm)), np.full(len(tm), np.inf)
    for v in np.linspace(-7 * c['rj'], 7 * c['rj'], 71):
        err = np.sum((f(tm + v) - ym) ** 2, axis=1)
        d, best = np.where(err < best, v, d), np.minimum(err, best)
    d, ed = refine(f, f1, tm, ym, d)
    d0, e0 = refine(f, f1, tm, ym, np.zeros(len(tm)))
    d = np.where((np.abs(d0) < np.abs(d)) & (e0 <= 1e-10 * osr * np.mean(base ** 2)), d0, d)     # two exact fits: the smaller one
    res = f(tm + d[:, None]) - ym
    good = np.sum(f1(tm) ** 2, axis=1) > 0.05 * osr * np.mean(base ** 2)        # judged where the symbol was, not where it went
    expect(bool(np.max(np.abs(res[good])) <= 1e-3 * np.max(np.abs(base))),
           lambda: f'{what}: samples of one symbol are not moved by one common time shift (residual {np.max(np.abs(res[good]))})')
    return d / c['rj'], good


def check_jit(c):
    r = np.random.default_rng(c['sseed'])
    lev = [-1, 1] if c['lev'] == 2 else [-3, -1, 1, 3]
    x = r.choice(lev, c['n'] + c['lead'])
    x = x if c['isint'] else x * c['scale']
    kw = dict(osr=c['osr'], span=c['span'], pulse=c['pulse'], beta=c['beta'])
    what = f"pulse_shape with jitter {c}"
    if c['lead']:                       # a later chunk of a stream
        kw['zi'] = call(cdsp.channel.pulse_shape, x[:c['lead']].copy(), **kw)[1]
        x = x[c['lead']:]
    k2 = lambda: dict(kw, zi=kw['zi'].copy()) if c['lead'] else kw
    base, z0 = call(cdsp.channel.pulse_shape, x.copy(), **k2())
    vs = []
    for _ in range(2):
        y, z1 = call(cdsp.channel.pulse_shape, x.copy(), rj_sigma=c['rj'], **k2())
        expect(np.shape(y) == np.shape(base), f'{what}: output shape {np.shape(y)}')
        close(z1, z0, f'{what}: memory with and without jitter', 1e-12, 1e-12)
        vs.append(displacement(c, base, y, what))
    good = vs[0][1] & vs[1][1]
    n = int(good.sum())
    if n < 60:
        return
    for v, _ in vs:
        u = v[good]
        expect(abs(u.mean()) <= Z / np.sqrt(n), f'{what}: mean jitter {u.mean()} sigma over {n} symbols')
        expect(abs(np.mean(u ** 2) - 1) <= Z * np.sqrt(2 / n), f'{what}: jitter deviation {np.sqrt(np.mean(u ** 2))} times the requested one over {n} symbols')
        expect(np.abs(u).max() <= 6.9, f'{what}: a symbol is displaced by {np.abs(u).max()} deviations')
        dev = float(np.max(np.abs(ndtr(np.sort(u)) - (np.arange(n) + 0.5) / n)))
        expect(dev <= np.sqrt(np.log(2 / 1e-11) / (2 * n)) + 3.0 / n, f'{what}: jitter distribution is {dev} away from the Gaussian')
        w = np.where(good, v, 0)        # every lag, over the pairs of well determined symbols
        m = 1 << int(np.ceil(np.log2(2 * len(w))))
        F, G = np.fft.rfft(w, m), np.fft.rfft(good.astype(float), m)
        acf = np.fft.irfft(F * np.conj(F), m)[1:len(w)]
        num = np.round(np.fft.irfft(G * np.conj(G), m)[1:len(w)])
        q = np.abs(acf) / (Z * np.sqrt(num) + 40)
        expect(float(q.max()) <= 1, lambda: f'{what}: the jitter repeats itself at a distance of {int(np.argmax(q)) + 1} symbols')
    q = float(np.mean(vs[0][0][good] * vs[1][0][good]))
    expect(abs(q) <= Z / np.sqrt(n) + 40.0 / n, f'{what}: the jitter of two calls is correlated: {q}')
    same(np.asarray(call(cdsp.channel.pulse_shape, x.copy(), rj_sigma=0.0, **k2())[0]), base, 'pulse_shape with zero jitter')


def enum_jit():
    return [dict(osr=o, span=4, n=n, rj=rj, beta=0.5, pulse=p, sseed=o + n, lead=0, lev=4, scale=1.0, isint=False) for o, n, rj, p in ((8, 12000, 0.03, 'rcos'), (4, 30000, 0.005, 'rrc'), (16, 5000, 0.06, 'sinc'))]


def gen_short(draw):
    n = g.i(draw, 1, 12)
    return dict(n=n, snr=g.grid_float(draw, -20.0, 40.0, 12), x=[g.i(draw, -9, 9) / 2 for _ in range(n)], ch=g.b(draw))


def check_short(c):
    """Chunks of a few samples: the noise of many calls together has the requested power."""
    x = np.array(c['x'])
    P = float(np.mean(x ** 2))
    K = 1200
    what = f"{'awgn_channel' if c['ch'] else 'awgn'} of the {c['n']} samples {c['x']} at {c['snr']} dB"
    f = (lambda: call(cdsp.channel.awgn_channel, x.copy(), [1.0], [1.0], snr=c['snr'])[0]) if c['ch'] else (lambda: call(cdsp.channel.awgn, x.copy(), c['snr']))
    v = np.array([np.asarray(f()) - x for _ in range(K if P else 3)])
    expect(v.shape[1:] == x.shape and bool(np.all(np.isfinite(v))), f'{what}: output {v[0] + x}')
    if P == 0:
        expect(not v.any(), f'{what}: noise on a silent signal')
        return
    want = P / 10 ** (c['snr'] / 10)
    r = float(np.mean(v ** 2)) / want
    expect(abs(r - 1) <= Z * np.sqrt(2 / v.size) * 1.3, f'{what}: noise power over {K} calls is {r} times the requested one')
    expect(abs(v.mean()) <= Z * np.sqrt(want / v.size), f'{what}: mean noise {v.mean()}')
    q = float(np.mean(v[1:] * v[:-1])) / want
    expect(abs(q) <= Z / np.sqrt(v[1:].size), f'{what}: noise of consecutive calls is correlated: {q}')


def enum_long():
    return [dict(n=1200000, snr=s, sseed=j, kind=k, scale=1.0, two=False, lay='c', isint=False) for j, (k, s) in enumerate([('pam', 12.0), ('offset', 25.0)])]


PROP = Prop('C16', [
    Sub('very_long', None, check_noise, 0, 0, enum=enum_long, rule='more than a million samples'),
    Sub('short', gen_short, check_short, 150, 3000, rule='signals of 1 to 12 samples, noise power over many calls'),
    Sub('awgn', gen_noise, check_noise, 600, 12000, rule='power, mean, whiteness, Gaussianity, independence of the noise for signals with and without DC'),
    Sub('channel', gen_ch, check_ch, 300, 6000, rule='noise set by the power of the channel output'),
    Sub('long_jitter', None, check_jit, 0, 0, enum=enum_jit, rule='thousands of jittered symbols'),
    Sub('jitter', gen_jit, check_jit, 160, 3000, rule='per-symbol common displacement recovered by fitting; its mean, deviation, independence'),
], rule='signals (PAM, DC, offset, sine, Gaussian; int and float; scaled), SNR, channels and jitter deviations drawn; oracle: the added noise / the fitted '
        'per-symbol displacement is compared with its documented distribution using 6.5-sigma bounds of each estimator. All cases are non-trivial.',
    assumptions=['statistical bounds: a deviation below ~5-10% of the noise power is not resolved', 'jitter at most 0.08 UI so displacements are recoverable'])
