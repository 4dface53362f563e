"""C15 CTLE: zeros, poles and DC gain realised by the bilinear transform at the sample rate."""
import numpy as np
import CommDspy as cdsp
from vf.core import Prop, Sub, call, same, close, expect, fail
from vf import gen as g
from props.c14 import ref_filter

SCALES = {1.0: 'corner frequencies taken as rad/s', 2 * np.pi: 'corner frequencies taken as Hz'}


def gen_par(draw):
    fs = g.pick(draw, 1.0, 53.125e9, 1e6, 26.5625e9, 1e-3, 12345.0)
    osr = g.pick(draw, 1, 2, 4, 8, 16, 32, 3, 5)
    npole = g.i(draw, 1, 3) if osr <= 16 else g.i(draw, 1, 2)
    if osr <= 4 and g.i(draw, 0, 3) == 0:
        npole = 4
    nzero = g.i(draw, 1, npole)
    f = lambda: g.grid_float(draw, 0.1, 1.5, 28) * fs * g.pick(draw, 1.0, 1.0, -1.0)
    return dict(zeros=[f() for _ in range(nzero)], poles=[f() for _ in range(npole)], gain=g.pick(draw, 0.0, 0, -6, 3, -6.0, 3.0, -20.0, g.grid_float(draw, -20.0, 20.0, 40)),
                fs=fs, osr=osr, form=g.pick(draw, 'list', 'array'))


def args(p):
    z, q = (list(p['zeros']), list(p['poles'])) if p['form'] == 'list' else (np.array(p['zeros']), np.array(p['poles']))
    return z, q, p['gain'], p['fs'], p['osr']


def ref_response(p, w, scale):
    """H(e^jw) = 10^(g/20) prod(1+s/|z|)/prod(1+s/|p|) with s = 2 fs osr (1-e^-jw)/(1+e^-jw)."""
    zi = np.exp(-1j * w)
    s = 2 * p['fs'] * p['osr'] * (1 - zi) / (1 + zi)
    h = np.full(len(w), 10 ** (p['gain'] / 20), complex)
    for z in p['zeros']:
        h = h * (1 + s / (scale * abs(z)))
    for q in p['poles']:
        h = h / (1 + s / (scale * abs(q)))
    return h


W = np.array([0.0, 0.01, 0.05, 0.1, 0.3, 0.7, 1.0, 1.5, 2.0, 2.5, 3.0])


def response(b_, a):
    k = np.exp(-1j * np.outer(W, np.arange(max(len(b_), len(a)))))
    return (k[:, :len(b_)] @ b_) / (k[:, :len(a)] @ a)


def matched_scale(p, b_, a):
    h = response(b_, a)
    for sc in SCALES:
        w = ref_response(p, W, sc)
        if np.all(np.abs(h - w) <= 1e-5 * np.abs(w).max() + 1e-5 * np.abs(w)):
            return sc
    return None


def check_filter(c):
    p = c
    b_, a = call(cdsp.rx.get_ctle_filter, *args(p))
    b_, a = np.asarray(b_, float), np.asarray(a, float)
    what = f"CTLE zeros={p['zeros']} poles={p['poles']} gain={p['gain']} fs={p['fs']} osr={p['osr']}"
    dc = b_.sum() / a.sum()
    want = 10 ** (p['gain'] / 20)
    cond = np.abs(a).sum() / abs(a.sum()) + np.abs(b_).sum() / abs(b_.sum())
    expect(abs(dc - want) <= (1e-6 + 1e-13 * cond) * want, f'{what}: DC gain {dc}, expected {want}')
    roots = np.roots(a)
    expect(bool(np.all(np.abs(roots) < 1)), f'{what}: unstable, poles at {roots}')
    expect(len(a) == len(p['poles']) + 1 and len(b_) <= len(a), f'{what}: filter orders {len(b_)}, {len(a)}')
    expect(matched_scale(p, b_, a) is not None, lambda: f'{what}: frequency response {np.abs(response(b_, a))} is not that of the bilinear transform '
           f'({np.abs(ref_response(p, W, 1.0))})')


def gen_run(draw):
    n = g.size(draw, 1, 120, big=6000)
    return dict(p=gen_par(draw), x=g.floats(draw, n) if g.i(draw, 0, 3) else g.ints(draw, n, -3, 3), cuts=g.chunks(draw, n), lay=g.layout(draw))


def check_run(c):
    p = c['p']
    x = g.expand(c['x'])
    b_, a = call(cdsp.rx.get_ctle_filter, *args(p))
    want = ref_filter(list(b_), list(a), x)
    what = f'ctle {p}'
    got = call(cdsp.rx.ctle, g.lay(x, c['lay']), *args(p))
    expect(not isinstance(got, tuple), f'{what}: without an initial memory only the signal is returned')
    close(got, want, what, 1e-6, 1e-7)
    z = np.zeros(max(len(a), len(b_)) - 1)
    parts = []
    for q in g.split(x, c['cuts']):
        y, z = call(cdsp.rx.ctle, q.copy(), *args(p), zi=z)
        parts.append(y)
    close(np.concatenate(parts), want, f"{what}: chunks {c['cuts']} with carried memory vs one signal", 1e-6, 1e-7)


def gen_abs(draw):
    return gen_par(draw)


def check_abs(c):
    """Signs of the corner frequencies do not matter, and frequencies scale with the sample rate."""
    b_, a = call(cdsp.rx.get_ctle_filter, *args(c))
    d = dict(c, zeros=[abs(z) for z in c['zeros']], poles=[-abs(q) for q in c['poles']])
    b2, a2 = call(cdsp.rx.get_ctle_filter, *args(d))
    close(response(np.asarray(b2), np.asarray(a2)), response(np.asarray(b_), np.asarray(a)), 'CTLE after flipping corner signs', 1e-6, 1e-7)
    k = 2.0
    e = dict(c, zeros=[z * k for z in c['zeros']], poles=[q * k for q in c['poles']], fs=c['fs'] * k)
    b3, a3 = call(cdsp.rx.get_ctle_filter, *args(e))
    close(response(np.asarray(b3), np.asarray(a3)), response(np.asarray(b_), np.asarray(a)), 'CTLE after scaling all frequencies', 1e-6, 1e-7)
    if c['osr'] > 1:
        f = dict(c, fs=c['fs'] * c['osr'], osr=1)
        b4, a4 = call(cdsp.rx.get_ctle_filter, *args(f))
        close(response(np.asarray(b4), np.asarray(a4)), response(np.asarray(b_), np.asarray(a)), 'CTLE at fs*osr', 1e-6, 1e-7)


def findings():
    p = dict(zeros=[0.2], poles=[0.5, 1.0], gain=-3.0, fs=1.0, osr=8, form='list')
    b_, a = call(cdsp.rx.get_ctle_filter, *args(p))
    if matched_scale(p, np.asarray(b_), np.asarray(a)) == 1.0:
        return ['get_ctle_filter(zeros=[0.2], poles=[0.5, 1.0], dc_gain=-3, fs=1, osr=8): corner frequencies documented in Hz act as rad/s (no 2*pi)']
    return []


def enum_long():
    return [dict(p=dict(zeros=[0.3], poles=[0.5, 1.2], gain=-3.0, fs=1.0, osr=o, form='list'), x=dict(fseed=9, n=n, scale=4.0, style='normal'), cuts=[n // 2], lay='c') for o, n in ((4, 140000), (16, 1050000))]


PROP = Prop('C15', [
    Sub('very_long', None, check_run, 0, 0, enum=enum_long, rule='up to a million samples'),
    Sub('filter', gen_par, check_filter, 2500, 40000, nontrivial=lambda c: len(c['poles']) > 1, rule='frequency response, DC gain, stability of random zero/pole sets'),
    Sub('run', gen_run, check_run, 1200, 20000, rule='filtering and carried memory', big=64),
    Sub('symmetry', gen_abs, check_abs, 800, 10000, rule='sign and frequency-scale invariance'),
], rule='zero/pole sets of either sign, DC gain in dB, symbol rate and oversampling drawn; oracle: the analog response evaluated at the bilinear-mapped '
        'frequencies; chunked = whole. Non-trivial: more than one pole.',
    assumptions=['at least one zero and no more zeros than poles, corner frequencies between 0.1 and 1.5 symbol rates',
                 'corner frequencies may be read as Hz or as rad/s as long as one reading fits (known finding: they act as rad/s)'], findings=findings)
