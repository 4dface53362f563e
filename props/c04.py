"""C04 slicing and quantisation return the nearest level."""
import numpy as np
import CommDspy as cdsp
from vf.core import Prop, Sub, call, same, close, expect, fail, short
from vf import gen as g
from props.c02 import shape2


def nearest(x, out, levels, what, eps=1e-12):
    """out must be levels, each at minimal distance from x (either side of an exact tie)."""
    x, out, levels = np.asarray(x, dtype=float), np.asarray(out), np.asarray(levels, dtype=float)
    expect(out.shape == x.shape, f'{what}: shape {out.shape}, expected {x.shape}')
    o = out.astype(float).reshape(-1)
    f = x.reshape(-1)
    lo = np.clip(np.searchsorted(levels, f) - 1, 0, len(levels) - 1)
    hi = np.clip(lo + 1, 0, len(levels) - 1)
    best = np.minimum(np.abs(f - levels[lo]), np.abs(f - levels[hi]))
    isl = np.isin(o, levels)
    if not isl.all():
        k = int(np.argmin(isl))
        fail(f'{what}: output {o[k]!r} for input {f[k]!r} is not one of the levels {short(levels)}')
    d = np.abs(o - f)
    tol = eps * np.maximum(1, np.abs(f))
    bad = d > best + tol
    if bad.any():
        k = int(np.argmax(bad))
        fail(f'{what}: input {f[k]!r} went to {o[k]!r} at distance {d[k]!r}, the nearest level of {short(levels)} is at {best[k]!r}')


def gen_levels(draw):
    m = g.i(draw, 1, 9)
    k = g.i(draw, 0, 3)
    if k == 0:
        return None
    step = g.some(draw, 1, 40, m)
    start = g.i(draw, -120, 60)
    return [(start + sum(step[:j])) / 8 for j in range(m)]


def gen_samples(draw, n, lv):
    """Values on levels, on and next to decision boundaries, far outside, and in general position."""
    if g.i(draw, 0, 3) == 0:
        return g.floats(draw, n, 8.0)
    return dict(lseed=g.seed(draw), n=n)


def samples(spec, lv):
    if 'lseed' not in spec:
        return g.expand(spec).astype(float)
    r = np.random.default_rng(spec['lseed'])
    n = spec['n']
    lv = np.asarray(lv, dtype=float)
    mids = (lv[1:] + lv[:-1]) / 2 if len(lv) > 1 else lv
    kind = r.integers(0, 6, n)
    span = max(1.0, float(lv[-1] - lv[0]))
    x = r.uniform(lv[0] - span, lv[-1] + span, n)
    x = np.where(kind == 0, r.choice(lv, n), x)
    x = np.where(kind == 1, r.choice(mids, n) + r.choice([-1, 1], n) * 1e-6 * span, x)
    x = np.where(kind == 2, r.choice(mids, n), x)
    x = np.where(kind == 3, r.choice(lv, n) + r.normal(size=n) * 0.1, x)
    x = np.where(kind == 4, r.choice([-1, 1], n) * 10.0 ** r.uniform(0, 6, n), x)
    return x


def gen_slice(draw):
    lv = gen_levels(draw)
    n = g.size(draw, 1, 3000, big=200000)
    return dict(levels=lv, x=gen_samples(draw, n, lv), shape=shape2(draw, n), lay=g.layout(draw), form=g.pick(draw, 'array', 'array', 'array', 'list', 'int', 'adc', 'adc', 'f32'), lvt=g.pick(draw, 'float', 'float', 'int'))


def check_slice(c):
    lv = [-3.0, -1.0, 1.0, 3.0] if c['levels'] is None else c['levels']
    arr_lv = np.array(lv)
    if c['lvt'] == 'int' and c['levels'] is not None:
        arr_lv = np.unique(np.round(arr_lv * 8).astype(int))
    x = samples(c['x'], arr_lv)
    if c['form'] == 'int':
        x = np.round(x).astype(int)
    if c['form'] == 'adc':              # converter codes and integer levels, both within eight bits
        r = np.random.default_rng(c['x'].get('lseed', 7))
        lo = int(r.choice([0, -128]))
        if c['levels'] is not None:
            arr_lv = np.unique(np.clip(np.round(arr_lv * 8).astype(int), lo, lo + 255))
        x = np.clip(np.round(x * r.choice([1, 8, 30])).astype(int), lo, lo + 255)
    if c['form'] == 'f32':
        x = x.astype(np.float32)
        arr_lv = arr_lv.astype(np.float32) if c['x'].get('lseed', 7) % 2 and c['levels'] is not None else arr_lv
    x = x.reshape(c['shape'])
    arg = x.tolist() if c['form'] == 'list' else g.lay(x, c['lay'])
    out = call(cdsp.rx.slicer, arg) if c['levels'] is None else call(cdsp.rx.slicer, arg, arr_lv.copy())
    nearest(x, out, arr_lv, 'slicer', 1e-6 if c['form'] == 'f32' else 1e-12)


def gen_quant(draw):
    t = g.i(draw, 1, 11) if g.i(draw, 0, 9) else g.i(draw, 12, 16)
    kind = g.pick(draw, 'u', 's', 'ss', 'default')
    if kind == 'ss' and t == 1:
        t = 2
    f = g.i(draw, -4, t + 3)
    n = g.size(draw, 1, 1200, big=max(2400, min(150000, 6000000 // 2 ** t))) if t < 12 else g.size(draw, 1, 200)
    return dict(t=t, f=f, kind=kind, x=dict(lseed=g.seed(draw), n=n) if g.i(draw, 0, 3) else g.floats(draw, n, 20.0), shape=shape2(draw, n), lay=g.layout(draw),
                form=g.pick(draw, 'float64', 'float64', 'float64', 'list', 'int64', 'int32', 'int16', 'int8', 'uint8', 'float32'))


def qlevels(t, f, kind):
    lo, hi = {'u': (0, 2 ** t - 1), 'default': (0, 2 ** t - 1), 's': (-2 ** (t - 1), 2 ** (t - 1) - 1),
              'ss': (-(2 ** (t - 1) - 1), 2 ** (t - 1) - 1)}[kind]
    return np.arange(lo, hi + 1) / 2.0 ** f


def check_quant(c):
    lv = qlevels(c['t'], c['f'], c['kind'])
    x = samples(c['x'], lv).reshape(c['shape'])
    form = c.get('form', 'float64')
    if 'int' in form:                   # converter codes of an integer type
        lim = np.iinfo(form)
        x = np.clip(np.round(x), max(lim.min, -10 ** 7), min(lim.max, 10 ** 7)).astype(form)
    elif form == 'float32':
        x = x.astype(form)
    arg = x.tolist() if form == 'list' else g.lay(x, c['lay'])
    if c['kind'] == 'default':
        out = call(cdsp.rx.quantize, arg, c['t'], c['f'])
    else:
        out = call(cdsp.rx.quantize, arg, c['t'], c['f'], c['kind'])
    nearest(x, out, lv, f"quantize to {c['t']}.{c['f']}{c['kind']}")
    again = call(cdsp.rx.quantize, np.array(out, dtype=float), c['t'], c['f'], 'u' if c['kind'] == 'default' else c['kind'])
    same(again, out, 'quantising an already quantised signal')


def enum_quant():
    out = []
    for t in range(1, 7):
        for f in range(-3, t + 3):
            for k in ('u', 's', 'ss'):
                if k == 'ss' and t == 1:
                    continue
                out.append(dict(t=t, f=f, kind=k, x=dict(lseed=100 * t + f, n=400), shape=[400], lay='c'))
    return out


def enum_long():
    return [dict(levels=lv, x=dict(lseed=j, n=1150000), shape=[1150000] if j else [1150, 1000], lay='c', form='array', lvt='float') for j, lv in enumerate([None, [-1.0, 1.0], [-2.0, 0.5, 1.0, 4.0, 9.0]])]


def enum_long_quant():
    return [dict(t=t, f=f, kind=k, x=dict(lseed=t, n=1100000), shape=[1100000], lay='c', form='float64') for t, f, k in ((3, 1, 's'), (4, 0, 'u'))]


PROP = Prop('C04', [
    Sub('long_slicer', None, check_slice, 0, 0, enum=enum_long, rule='more than a million samples'),
    Sub('long_quantize', None, check_quant, 0, 0, enum=enum_long_quant, rule='more than a million samples'),
    Sub('slicer', gen_slice, check_slice, 2000, 40000, nontrivial=lambda c: c['levels'] is None or len(c['levels']) > 1, rule='random increasing level sets, samples at/near thresholds', big=120),
    Sub('quantize', gen_quant, check_quant, 1200, 20000, enum=enum_quant, rule='documented grids, saturation, idempotence', big=80),
], rule='increasing level vectors, sample values on levels, on and a hair beside decision thresholds, and far outside, in arrays of 1-3 dimensions '
        'and lists; fixed-point formats with negative, zero and positive fractional bits. Oracle: brute-force nearest level (either side of a tie). '
        'Non-trivial: more than one level.',
    assumptions=['levels strictly increasing'])
