"""C12 framing, rate and distance helpers: buffer, upsample, zoh, hamming, power, rms."""
import numpy as np
import CommDspy as cdsp
from vf.core import Prop, Sub, call, same, close, expect, fail
from vf import gen as g


DTYPES = {'int': 'int64', 'float': 'float64', 'cplx': 'complex128', 'int32': 'int32', 'int16': 'int16', 'int8': 'int8', 'f4': 'float32'}


def sig(draw, n, kinds=('int', 'int', 'float', 'float', 'cplx', 'int32', 'int16', 'int8', 'f4')):
    k = g.pick(draw, *kinds)
    c = dict(kind=k, s=g.floats(draw, n) if k in ('float', 'cplx', 'f4') else g.ints(draw, n, -9, 9))
    if k == 'cplx':
        c['im'] = g.floats(draw, n)
    return c


def sig_of(c):
    a = g.expand(c['s'])
    if c['kind'] == 'cplx':
        return a.astype(float) + 1j * g.expand(c['im'])
    return a.astype(DTYPES[c['kind']])


def gen_buf(draw):
    n = g.size(draw, 1, 200, big=6000)
    length = g.size(draw, 1, 40, around=(n, n - 1, n + 1), big=400)
    delay = g.pick(draw, 0, 0, 0, g.i(draw, 1, 30), g.i(draw, 1, 2000) if g.large() else 5)
    top = min(length - 1, n + delay - 1)
    overlap = g.pick(draw, 0, 0, g.i(draw, 0, top), top, -g.i(draw, 1, 12), -g.i(draw, 1, 400) if g.large() else -1)
    return dict(s=sig(draw, n), length=length, overlap=overlap, delay=delay, clip=g.b(draw), lay=g.layout(draw), short=g.b(draw))


def check_buf(c):
    x = sig_of(c['s'])
    L, P, D = c['length'], c['overlap'], c['delay']
    full = [x.dtype.type(0)] * D + list(x)
    N = len(full)
    rows, k = [], 0
    while k < N - max(P, 0):
        fr = full[k:k + L]
        if len(fr) == L or not c['clip']:
            rows.append(fr + [x.dtype.type(0)] * (L - len(fr)))
        k += L - P
    want = np.array(rows, dtype=x.dtype).reshape(len(rows), L)
    kw = dict(overlap=P, delay=D, clip=c['clip'])
    if c['short']:
        kw = {k_: v for k_, v in kw.items() if v}
    got = call(cdsp.buffer, g.lay(x, c['lay']), L, **kw)
    same(got, want, f"buffer of {len(x)} samples, length={L} overlap={P} delay={D} clip={c['clip']}")


def gen_ups(draw):
    n = g.size(draw, 1, 500, big=60000)
    return dict(s=sig(draw, n), rate=g.size(draw, 1, 70) if not g.large() or n > 3000 else g.size(draw, 1, 70, big=900), lay=g.layout(draw), huge=g.pick(draw, *[False] * 7, True))


def check_ups(c):
    x = sig_of(c['s'])
    r = c['rate']
    if c['huge'] and x.dtype.kind == 'i':
        x = x.astype(np.int64) + (2 ** 62 + 1)         # integers that no float holds exactly
    want = np.zeros(len(x) * r, x.dtype)
    want[::r] = x
    same(call(cdsp.upsample, g.lay(x, c['lay']), r), want, f'upsample by {r}')
    same(call(cdsp.zoh, g.lay(x, c['lay']), r), np.repeat(x, r), f'zoh of {r}')


def gen_ham(draw):
    n, m, l = (g.size(draw, 1, 12, big=60), g.size(draw, 1, 20, big=60), g.size(draw, 1, 16, big=900))
    return dict(n=n, m=m, l=l, a=g.ints(draw, n * l, 0, 1), b=g.ints(draw, m * l, 0, 1))


def check_ham(c):
    a = g.expand(c['a']).astype(int).reshape(c['n'], c['l'])
    b_ = g.expand(c['b']).astype(int).reshape(c['m'], c['l'])
    out = call(cdsp.hamming, a.copy(), b_.copy())
    d, idx = np.asarray(out[0]), np.asarray(out[1])
    want = np.array([[int(np.count_nonzero(x != y)) for x in a] for y in b_])
    same(d, want, 'Hamming distances (codewords x blocks)')
    expect(idx.shape == (c['n'],), f'nearest index has shape {idx.shape}')
    same(want[idx, np.arange(c['n'])], want.min(axis=0), 'distance at the returned nearest codeword')


def gen_pow(draw):
    n = g.size(draw, 1, 2000, big=300000)
    return dict(re=g.floats(draw, n), im=g.floats(draw, n), cplx=g.b(draw), lay=g.layout(draw), scale=g.pick(draw, 1.0, 1e-6, 1e6, -3.0), dt=g.pick(draw, 'f', 'f', 'f', 'i', 'i2', 'f4'))


def check_pow(c):
    x = g.expand(c['re']).astype(float) * c['scale']
    if c['cplx']:
        x = x + 1j * g.expand(c['im'])
    elif c['dt'] == 'f4':
        x = x.astype(np.float32)
    elif c['dt'] != 'f':
        x = np.round(np.clip(x, -3e4, 3e4)).astype('int64' if c['dt'] == 'i' else 'int32')
        x = np.clip(x, -30000, 30000) if c['dt'] == 'i' else np.clip(x, -30, 30)
    want = float(np.sum(np.abs(x.astype(complex)) ** 2) / len(x))
    p = call(cdsp.power, g.lay(x, c['lay']))
    eps = 1e-4 if x.dtype == np.float32 else 1e-9
    expect(abs(p - want) <= eps * want + 1e-300, f'power: {p}, expected {want}')
    r = call(cdsp.rms, g.lay(x, c['lay']))
    expect(abs(r - np.sqrt(want)) <= eps * np.sqrt(want) + 1e-150, f'rms: {r}, expected {np.sqrt(want)}')


def enum_long():
    return [dict(s=dict(kind=k, s=dict(seed=3, n=n, lo=-9, hi=9, style='uniform')), rate=r, lay='c', huge=False) for k, n, r in (('int', 1100000, 1), ('int', 300000, 4), ('int', 20000, 100))]


def enum_long_pow():
    return [dict(re=dict(fseed=4, n=2200000, scale=4.0, style='normal'), im=dict(fseed=5, n=2200000, scale=4.0, style='normal'), cplx=x, lay='c', scale=1.0, dt='f') for x in (False, True)]


PROP = Prop('C12', [
    Sub('long_rate', None, check_ups, 0, 0, enum=enum_long, rule='more than a million samples'),
    Sub('long_power', None, check_pow, 0, 0, enum=enum_long_pow, rule='more than a million samples'),
    Sub('buffer', gen_buf, check_buf, 6000, 100000, nontrivial=lambda c: c['overlap'] != 0 or c['clip'], rule='frame length, over-/underlap, delay, clip against list slicing', big=300),
    Sub('rate', gen_ups, check_ups, 2500, 30000, nontrivial=lambda c: c['rate'] > 1, rule='zero stuffing and hold', big=200),
    Sub('hamming', gen_ham, check_ham, 1500, 20000, rule='pairwise bit comparison', big=150),
    Sub('power', gen_pow, check_pow, 1500, 20000, rule='mean squared magnitude, real and complex', big=150),
], rule='signals (int, float, complex; values incl. zeros at frame ends; several layouts), frame length, overlap or underlap, delay and clip drawn; oracle: '
        'plain list slicing and element loops. Non-trivial: an overlap/underlap or clipping, rate above 1.',
    assumptions=['overlap is below the frame length and below the delayed signal length'])
