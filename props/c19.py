"""C19 the eye diagram is the per-phase amplitude histogram of the signal, over two unit intervals."""
import numpy as np
import CommDspy as cdsp
from vf.core import Prop, Sub, call, same, close, expect, fail
from vf import gen as g
from props.c18 import ref_coeffs


def check_counts(eye, x, fs, Q, what, exact=False):
    """eye: Q counts; x: the samples of one phase.  Samples within rounding of a bin edge may fall on either side."""
    edges = -fs + 2.0 * fs * np.arange(Q + 1) / Q
    tol = 1e-9 * fs
    xs = np.sort(x)
    below_lo = np.searchsorted(xs, edges - tol, 'left')     # surely below the edge
    below_hi = np.searchsorted(xs, edges + tol, 'right')    # possibly below the edge
    if exact:       # the samples are the caller's own: the closed range is exact
        below_lo[0] = below_hi[0] = np.searchsorted(xs, -fs, 'left')
        below_lo[-1] = below_hi[-1] = np.searchsorted(xs, fs, 'right')
    cum = np.concatenate([[0], np.cumsum(eye)])
    expect(bool(np.all(eye == np.round(eye)) and np.all(eye >= 0)), f'{what}: histogram holds {eye[eye != np.round(eye)][:3]}')
    lo = below_lo - below_hi[0]
    hi = below_hi - below_lo[0]
    # right edge belongs to the last bin, samples outside the range are dropped
    bad = np.flatnonzero((cum < np.maximum(lo, 0)) | (cum > hi))
    expect(len(bad) == 0, lambda: f'{what}: {cum[bad[0]]} samples counted below amplitude {edges[bad[0]]:.6g}, expected {lo[bad[0]]}..{hi[bad[0]]}')


def gen_eye(draw):
    osr = g.i(draw, 1, 16) if not g.large() else g.i(draw, 1, 2) if g.b(draw) else g.size(draw, 1, 16, big=80)
    n = g.size(draw, 1, 150, big=max(1000, 100000 // osr if osr > 2 else 200000))
    return dict(osr=osr, n=n, fs=g.pick(draw, None, 1.0, 4.0, 0.5, 2.5, 10.0, 3.0, 1e-3), Q=g.pick(draw, None, 256, 16, 2, 33, 100, 1000), log=g.b(draw), xseed=g.seed(draw),
                kind=g.pick(draw, 'normal', 'levels', 'wide', 'ints', 'const', 'edge'), lay=g.layout(draw))


def make(c, n):
    r = np.random.default_rng(c['xseed'])
    if c['kind'] == 'edge':             # on, just inside and just outside the limits of the range
        fs = 1.0 if c['fs'] is None else c['fs']
        return r.choice([-fs, fs, np.nextafter(fs, 0), np.nextafter(fs, 2 * fs), np.nextafter(-fs, 0), np.nextafter(-fs, -2 * fs), 0.3 * fs], n)
    return {'normal': lambda: r.normal(size=n), 'levels': lambda: r.choice([-3, -1, 1, 3], n) * 1.0, 'wide': lambda: r.normal(size=n) * 6,
            'ints': lambda: r.integers(-5, 6, n), 'const': lambda: np.full(n, 0.25)}[c['kind']]()


def run(c, x, osr_in, osr_diag):
    kw = {}
    if c['fs'] is not None:
        kw['fs_value'] = c['fs']
    if c['Q'] is not None:
        kw['quantization'] = c['Q']
    if c['log']:
        kw['logscale'] = True
    out = call(cdsp.eye_diagram, x, osr_in, osr_diag, **kw)
    fs, Q = 1.0 if c['fs'] is None else c['fs'], 256 if c['Q'] is None else c['Q']
    expect(isinstance(out, tuple) and len(out) == 2, 'eye_diagram: expected (eye, amplitudes)')
    eye, amp = np.asarray(out[0]), np.asarray(out[1])
    expect(eye.shape == (Q, 2 * osr_diag), f'eye has shape {eye.shape}, expected {(Q, 2 * osr_diag)}')
    close(amp, -fs + 2 * fs * np.arange(Q) / (Q - 1), 'amplitude axis', 1e-9, 1e-9)
    if c['log']:
        cnt = 10.0 ** eye - 0.1
        eye = np.round(cnt)
        expect(bool(np.all(np.abs(cnt - eye) < 1e-6 * (1 + eye))), 'logscale eye is not log10(count + 0.1)')
    same(eye[:, :osr_diag], eye[:, osr_diag:], 'second unit interval repeats the first')
    return eye, fs, Q


def check_eye(c):
    osr = c['osr']
    x = make(c, c['n'] * osr)
    eye, fs, Q = run(c, g.lay(x, c['lay']), osr, osr)
    for ph in range(osr):
        check_counts(eye[:, ph], x[ph::osr].astype(float), fs, Q, f'eye phase {ph} of {osr}', exact=True)


def gen_int(draw):
    osr_in = g.i(draw, 1, 8)
    n = g.size(draw, 3, 100, big=2000)
    return dict(osr_in=osr_in, mult=g.i(draw, 2, 6), n=n, fs=g.pick(draw, None, 1.0, 4.0, 2.5), Q=g.pick(draw, None, 16, 33), log=g.b(draw), xseed=g.seed(draw),
                kind=g.pick(draw, 'normal', 'levels', 'wide'), lay=g.layout(draw))


def check_int(c):
    a, m = c['osr_in'], c['mult']
    x = make(c, c['n'] * a)
    eye, fs, Q = run(c, g.lay(x, c['lay']), a, a * m)
    rows = len(x) - a
    up = np.zeros((rows, m))
    win = np.lib.stride_tricks.sliding_window_view(x.astype(float), a + 1)
    for j in range(m):
        up[:, j] = win @ ref_coeffs('sinc', a, j / m, True, 0.0)
    up = up.reshape(-1, a * m)
    for ph in range(a * m):
        check_counts(eye[:, ph], up[:, ph], fs, Q, f'interpolated eye phase {ph} of {a * m}')


def enum_long():
    return [dict(osr=o, n=n, fs=4.0, Q=q, log=False, xseed=3, kind=k, lay='c') for o, n, q, k in ((16, 70000, 64, 'levels'), (1, 1100000, 256, 'normal'), (4, 300000, 16, 'wide'))]


PROP = Prop('C19', [
    Sub('very_long', None, check_eye, 0, 0, enum=enum_long, rule='more than a million samples'),
    Sub('eye', gen_eye, check_eye, 3000, 40000, nontrivial=lambda c: c['osr'] > 1, rule='histogram per phase, clipping range, log scale, two unit intervals', big=64),
    Sub('interpolated', gen_int, check_int, 1500, 20000, rule='eye at a multiple of the input rate', big=48),
], rule='signals (continuous, on-level, out of range, integer), oversampling, diagram rate, range and resolution drawn; oracle: cumulative sample counts per phase '
        'with either side allowed for samples on a bin edge; sinc interpolation for higher diagram rates. Non-trivial: more than one phase.',
    assumptions=['signal length is a whole number of symbols, diagram rate a multiple of the input rate'])
