"""C14 the channel model is the difference equation given by b and a, and streams without seams."""
import numpy as np
import CommDspy as cdsp
from vf.core import Prop, Sub, call, same, close, expect, fail
from vf import gen as g


def ref_filter(b, a, x):
    f = np.zeros(len(x))
    for k in range(min(len(b), len(x))):
        f[k:] += b[k] * x[:len(x) - k]
    ar = np.asarray(a[1:], float)[::-1]
    p = len(ar)
    if p == 0:
        return f / a[0]
    yy = np.zeros(len(x) + p)
    for n in range(len(x)):
        yy[n + p] = (f[n] - ar @ yy[n:n + p]) / a[0]
    return yy[p:]


def gen_taps(draw):
    nb = g.i(draw, 1, 9) if not g.large() else g.size(draw, 1, 9, big=120)
    na = g.pick(draw, 0, 1, 1, g.i(draw, 2, 6) if not g.large() else g.size(draw, 2, 10, big=40))
    b_ = [g.grid_float(draw, -2.0, 2.0, 40) for _ in range(nb)]
    a0 = g.pick(draw, 1.0, 1.0, 2.0, -0.5, 4.0)
    a = [a0]
    if na > 1:
        raw = [g.grid_float(draw, -1.0, 1.0, 20) for _ in range(na - 1)]
        s = sum(abs(v) for v in raw)
        k = 0.9 / s if s > 0.9 else 1.0
        a += [v * k * a0 for v in raw]
    bform = g.pick(draw, 'list', 'array', 'array', 'int')
    if bform == 'int':
        b_ = [int(round(v)) for v in b_]
    return dict(b=b_, a=a, aform=g.pick(draw, 'int', 'float', 'npint') if na == 0 else g.pick(draw, 'list', 'array'), bform=bform)


def taps(c):
    b_ = list(c['b']) if c['bform'] == 'list' else np.array(c['b'])
    f = c['aform']
    if f in ('int', 'npint'):
        av = [1.0]
        a = 1 if f == 'int' else np.int64(1)
    elif f == 'float':
        av, a = c['a'], float(c['a'][0])
    else:
        av = c['a']
        a = list(av) if f == 'list' else np.array(av)
    return b_, a, av


def gen_ch(draw):
    n = g.size(draw, 1, 150, big=9000)
    return dict(t=gen_taps(draw), x=g.floats(draw, n) if g.b(draw) else g.ints(draw, n, -3, 3), cuts=g.chunks(draw, n), lay=g.layout(draw), z0=g.b(draw))


def check_ch(c):
    x = g.expand(c['x'])
    b_, a, av = taps(c['t'])
    zl = max(len(av), len(c['t']['b'])) - 1
    want = ref_filter(c['t']['b'], av, x.astype(float))
    what = f'awgn_channel b={c["t"]["b"]} a={a}'
    y, zo = call(cdsp.channel.awgn_channel, g.lay(x, c['lay']), b_, a)
    close(y, want, what, 1e-7, 1e-9)
    expect(np.shape(zo) == (zl,), f'{what}: memory has shape {np.shape(zo)}, expected ({zl},)')
    parts, z = [], np.zeros(zl) if c['z0'] else None
    for p in g.split(x, c['cuts']):
        out, z = call(cdsp.channel.awgn_channel, p.copy(), b_, a, zi=z)
        parts.append(out)
    close(np.concatenate(parts), want, f"{what}: chunks {c['cuts']} with carried memory vs one signal", 1e-7, 1e-9)
    close(z, zo, f'{what}: final memory after chunks', 1e-7, 1e-9)
    tail, _ = call(cdsp.channel.awgn_channel, np.zeros(20), b_, a, None, z)
    full = ref_filter(c['t']['b'], av, np.concatenate([x.astype(float), np.zeros(20)]))
    close(tail, full[len(x):], f'{what}: response after the end of the signal', 1e-7, 1e-9)


def gen_lin(draw):
    n = g.size(draw, 2, 200, big=60000)
    return dict(t=gen_taps(draw), n=n, x=g.floats(draw, n), y=g.floats(draw, n), k=g.pick(draw, 2.0, -1.0, 0.5), d=g.i(draw, 0, n - 1))


def check_lin(c):
    b_, a, av = taps(c['t'])
    x, y = g.expand(c['x']).astype(float), g.expand(c['y']).astype(float)
    f = lambda s: np.asarray(call(cdsp.channel.awgn_channel, s, b_, a)[0])
    close(f(x + c['k'] * y), f(x) + c['k'] * f(y), 'linearity of the noiseless channel', 1e-6, 1e-8)
    d = c['d']
    close(f(np.concatenate([np.zeros(d), x])), np.concatenate([np.zeros(d), f(x)]), 'time invariance of the noiseless channel', 1e-7, 1e-9)


def nt(c):
    return max(len(c['t']['a']), len(c['t']['b'])) > 1


def enum_long():
    return [dict(t=dict(b=b, a=a, aform='list', bform='array'), x=dict(fseed=9, n=n, scale=4.0, style='normal'), cuts=[n // 2, n - 1], lay='c', z0=False)
            for b, a, n in (([1.0, 0.4, -0.2, 0.1], [1.0], 1100000), ([0.5, 0.25], [2.0, -0.6, 0.1], 260000), ([1.0], [1.0], 1048577))]


PROP = Prop('C14', [
    Sub('very_long', None, check_ch, 0, 0, enum=enum_long, rule='up to a million samples'),
    Sub('channel', gen_ch, check_ch, 2500, 40000, nontrivial=nt, rule='difference equation, carried memory over arbitrary chunk boundaries, scalar/list/array a, a[0] != 1', big=96),
    Sub('lti', gen_lin, check_lin, 1500, 20000, nontrivial=nt, rule='linearity and time invariance', big=64),
], rule='numerators, stable denominators (also scalar, also not normalised), signals and chunk boundaries drawn; oracle: the difference equation evaluated '
        'sample by sample. Non-trivial: the channel has memory.',
    assumptions=['denominators with sum|a_k| <= 0.9|a_0| (stable), no noise (see C16)'])
