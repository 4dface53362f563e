"""C18 fractional delay filters and digital oversampling interpolate."""
from fractions import Fraction
import numpy as np
import CommDspy as cdsp
from vf.core import Prop, Sub, call, same, close, expect, fail
from vf import gen as g
from props.c13 import ref_pulse


def idx(n, forward):
    if n % 2 == 0:
        return np.arange(-(n // 2), n // 2 + 1)
    return np.arange(-(n // 2), n // 2 + 2) if forward else np.arange(-(n // 2) - 1, n // 2 + 1)


def ref_coeffs(method, n, alpha, forward, beta):
    k = idx(n, forward)
    if method == 'lagrange':
        a = Fraction(alpha)
        out = []
        for i_ in k:
            v = Fraction(1)
            for j in k:
                if i_ != j:
                    v *= (a - int(j)) / Fraction(int(i_ - j))
            out.append(float(v))
        return np.array(out)
    if method == 'sinc':
        return np.sinc(k - alpha)
    return ref_pulse('rcos', k - alpha, beta)


def gen_co(draw):
    n = g.i(draw, 1, 14) if not g.large() else g.size(draw, 1, 15, big=60)
    method = g.pick(draw, 'lagrange', 'sinc', 'rcos')
    alpha = g.pick(draw, 0.0, 0.5, 0.25, 1.0, g.grid_float(draw, 0.0, 1.0, 20), g.i(draw, 0, 16) / 16)
    d = abs(alpha - g.pick(draw, *[int(v) for v in idx(n, True)]))
    beta = g.pick(draw, None, 0.0, 0.5, 1.0, g.grid_float(draw, 0.0, 1.0, 20), 1 / (2 * d) if d >= 0.5 else 0.4)
    return dict(method=method, n=n, alpha=alpha, forward=g.b(draw), beta=beta, fdef=g.b(draw))


def lib(c):
    from CommDspy import digital_delay as dd
    fn = {'lagrange': cdsp.dig_delay_lagrange_coeffs, 'sinc': cdsp.dig_delay_sinc_coeffs, 'rcos': dd.dig_delay_rcos_coeffs}[c['method']]
    kw = {} if c['forward'] and c['fdef'] else dict(forward=c['forward'])
    if c['method'] == 'rcos' and c['beta'] is not None:
        kw['beta'] = c['beta']
    return np.asarray(call(fn, c['n'], c['alpha'], **kw))


def check_co(c):
    got = lib(c)
    beta = 0.5 if c['beta'] is None else c['beta']
    what = f"{c['method']} delay coefficients n={c['n']} alpha={c['alpha']} forward={c['forward']} beta={beta}"
    close(got, ref_coeffs(c['method'], c['n'], c['alpha'], c['forward'], beta), what, 1e-7, 1e-7)
    k = idx(c['n'], c['forward'])
    if c['alpha'] in k:
        close(got, (k == c['alpha']).astype(float), f'{what}: whole-sample delay', 0, 1e-9)
    if c['method'] == 'lagrange':
        for p in range(min(c['n'], 20) + 1):
            v = float(np.sum(got * k.astype(float) ** p))
            sc = float(np.sum(np.abs(got) * np.abs(k.astype(float)) ** p)) + 1
            expect(abs(v - c['alpha'] ** p) <= 1e-9 * sc, f'{what}: does not reproduce x^{p} (got {v}, expected {c["alpha"] ** p})')


def gen_ov(draw):
    order = g.i(draw, 1, 12) if not g.large() else g.size(draw, 1, 12, big=60)
    osr = g.size(draw, 1, 16) if not g.large() else g.size(draw, 1, 16, big=100)
    n = g.size(draw, order + 1, order + 120, big=order + max(4000, 300000 // osr))
    return dict(order=order, osr=osr, method=g.pick(draw, 'lagrange', 'sinc', 'rcos'), beta=g.pick(draw, None, 0.0, 0.3, 0.5, 1.0), x=g.floats(draw, n), lay=g.layout(draw), isint=g.b(draw))


def check_ov(c):
    x = g.expand(c['x']).astype(float)
    if c['isint']:
        x = np.round(x).astype(int)
    o, osr = c['order'], c['osr']
    kw = {} if c['beta'] is None else dict(beta=c['beta'])
    out = call(cdsp.digital_oversample, g.lay(x, c['lay']), osr, o, c['method'], **kw)
    expect(isinstance(out, tuple) and len(out) == 3, 'digital_oversample: expected (signal, new time, old time)')
    y, x2, x1 = (np.asarray(v) for v in out)
    pre = o // 2
    m = len(x) - o
    want = np.zeros((m, osr))
    for j in range(osr):
        co = ref_coeffs(c['method'], o, Fraction(j, osr) if c['method'] == 'lagrange' else j / osr, True, c['beta'] or 0.0)
        want[:, j] = np.lib.stride_tricks.sliding_window_view(x.astype(float), o + 1) @ co
    what = f"digital_oversample {c['method']} osr={osr} order={o} on {len(x)} samples"
    close(y, want.reshape(-1), what, 1e-6, 1e-7)
    same(y[::osr], x[pre:pre + m].astype(float), f'{what}: original samples kept')
    close(x2, np.arange(m * osr) / osr, f'{what}: new time axis', 1e-12, 1e-12)
    same(x1, np.arange(len(x1)), f'{what}: old time axis')
    expect(len(x1) >= m, f'{what}: old time axis has {len(x1)} values for {m} samples')


def gen_poly(draw):
    order = g.i(draw, 1, 9)
    return dict(order=order, osr=g.i(draw, 2, 12), co=[g.i(draw, -3, 3) for _ in range(order + 1)], n=order + g.i(draw, 1, 30))


def check_poly(c):
    """A polynomial of degree <= order is interpolated exactly by Lagrange oversampling."""
    n, o = c['n'], c['order']
    t = np.arange(n)
    f = lambda v: sum(k * ((v - n / 2) / n) ** p for p, k in enumerate(c['co']))
    y, x2, _ = call(cdsp.digital_oversample, f(t).astype(float), c['osr'], o, 'lagrange')
    close(y, f(o // 2 + np.arange((n - o) * c['osr']) / c['osr']) * np.ones((n - o) * c['osr']), f'Lagrange oversampling of a degree-{o} polynomial', 1e-7, 1e-8)


def enum_long():
    return [dict(order=o, osr=r, method=m, beta=None, x=dict(fseed=9, n=n, scale=4.0, style='normal'), lay='c', isint=False) for o, r, m, n in ((4, 8, 'lagrange', 140000), (7, 2, 'sinc', 530000), (3, 1, 'rcos', 1100000))]


PROP = Prop('C18', [
    Sub('very_long', None, check_ov, 0, 0, enum=enum_long, rule='more than a million output samples'),
    Sub('coeffs', gen_co, check_co, 5000, 60000, nontrivial=lambda c: c['alpha'] not in (0.0, 1.0), rule='delay taps against exact rational / stable evaluation; whole-sample delays; polynomial reproduction', big=200),
    Sub('oversample', gen_ov, check_ov, 1500, 20000, nontrivial=lambda c: c['osr'] > 1, rule='every interpolated sample, trimming, kept samples, time axis', big=96),
    Sub('polynomial', gen_poly, check_poly, 1000, 12000, rule='exactness on polynomials'),
], rule='interpolation order 1-14 (up to 60 in large cases), fractional delay (whole, grid, arbitrary), direction, roll-off (incl. values that put a singularity on a tap), '
        'oversampling and signals drawn; oracle: exact rational Lagrange polynomials, stable sinc / raised cosine. Non-trivial: a fractional delay, OSR above 1.',
    assumptions=['order at least 1 and below the signal length, delay in [0, 1]'])
