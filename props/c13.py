"""C13 pulse shaping: documented pulses, ISI-free, linear filtering that can be cut into chunks."""
import numpy as np
import CommDspy as cdsp
from vf.core import Prop, Sub, call, same, close, expect, fail
from vf import gen as g

PULSES = ('rect', 'sinc', 'rcos', 'rrc', 'imp')


def ref_pulse(name, t, beta):
    if name == 'rect':
        return ((t >= -0.5) & (t < 0.5)).astype(float)
    if name == 'sinc':
        return np.sinc(t)
    if name == 'rcos':
        u = 2 * beta * np.abs(t) - 1            # cos(pi b t)/(1-(2bt)^2) without the 0/0 at u = 0
        return np.sinc(t) * (np.pi / 2) * np.sinc(u / 2) / (2 + u)
    if name == 'rrc':
        t = np.asarray(t, np.longdouble)
        b_, pi = np.longdouble(beta), np.longdouble('3.14159265358979323846264338327950288')
        out = np.empty(len(t), float)
        for k, x in enumerate(t):
            d = 4 * b_ * abs(x) - 1
            if abs(x) < 1e-9:
                v = 1 + b_ * (4 / pi - 1)
            elif abs(d) < 1e-8:
                v = b_ / np.sqrt(np.longdouble(2)) * ((1 + 2 / pi) * np.sin(pi / (4 * b_)) + (1 - 2 / pi) * np.cos(pi / (4 * b_)))
            else:
                v = (np.sin(pi * (1 - b_) * x) + 4 * b_ * x * np.cos(pi * (1 + b_) * x)) / (pi * x * (1 - (4 * b_ * x) ** 2))
            out[k] = float(v)
        return out
    raise KeyError(name)


def lib_pulse(name, osr, span, beta, t=None):
    kw = {} if t is None else dict(t=t)
    fn = {'rect': cdsp.channel.rect_pulse, 'sinc': cdsp.channel.sinc_pulse, 'rcos': cdsp.channel.rcos_pulse, 'rrc': cdsp.channel.rrc_pulse}[name]
    return call(fn, osr, span, *((beta,) if name in ('rcos', 'rrc') else ()), **kw)


def grid(osr, span):
    return np.arange(-span * osr, span * osr) / osr


def gen_beta(draw, osr=None):
    k = g.i(draw, 0, 4)
    if k == 0:
        return g.pick(draw, 0.5, 0.25, 1.0, 0.75, 0.2, 0.1, 0.05, 0.35)
    if k <= 2 and osr:       # put a singular point of one of the pulses on the sampling grid
        m = g.i(draw, 1, 8 * osr)
        b_ = (osr / (2.0 * m)) if g.b(draw) else (osr / (4.0 * m))
        if 0.02 <= b_ <= 1:
            return b_
    return g.grid_float(draw, 0.02, 1.0, 98)


def gen_pulse(draw):
    osr = g.size(draw, 1, 64, around=(19,), big=256)
    span = g.i(draw, 1, 12) if not g.large() else g.size(draw, 1, 12, big=64)
    t = None
    if g.i(draw, 0, 3) == 0:
        t = [float(x) / 16 for x in g.some(draw, -160, 160, g.i(draw, 1, 12))]
    return dict(name=g.pick(draw, *PULSES[:4]), osr=osr, span=span, beta=gen_beta(draw, osr), t=t)


def check_pulse(c):
    t = grid(c['osr'], c['span']) if c['t'] is None else np.array(c['t'])
    got = np.asarray(lib_pulse(c['name'], c['osr'], c['span'], c['beta'], None if c['t'] is None else t.copy()))
    close(got, ref_pulse(c['name'], t, c['beta']), f"{c['name']} pulse osr={c['osr']} span={c['span']} beta={c['beta']}", 1e-6, 1e-6)
    if c['t'] is None:
        mid = c['span'] * c['osr']
        k = np.arange(1, mid)
        close(got[mid + k], got[mid - k], f"{c['name']} pulse symmetry", 1e-7, 1e-7) if c['name'] != 'rect' else None
        if c['name'] in ('sinc', 'rcos', 'rect'):
            taps = got[::c['osr']]
            close(taps, (np.arange(2 * c['span']) == c['span']).astype(float), f"{c['name']} pulse at whole symbol times", 0, 1e-9)


def gen_shape(draw):
    name = g.pick(draw, *PULSES)
    osr, span = g.size(draw, 1, 24), g.i(draw, 1, 8)
    if g.large() and g.i(draw, 0, 2) == 0:
        osr, span = g.size(draw, 1, 24, big=100), g.size(draw, 1, 8, big=40)
    n = g.size(draw, 1, 120, big=6000)
    return dict(name=name, osr=osr, span=span, beta=gen_beta(draw, osr), n=n, x=g.floats(draw, n) if g.b(draw) else g.ints(draw, n, -3, 3),
                cuts=g.chunks(draw, n), lay=g.layout(draw), zi=g.b(draw))


def lin_conv(x, h):
    if len(x) * len(h) < 5_000_000:
        return np.convolve(x, h)
    n = 1 << int(np.ceil(np.log2(len(x) + len(h))))
    return np.fft.irfft(np.fft.rfft(x, n) * np.fft.rfft(h, n), n)[:len(x) + len(h) - 1]


def shape(c, x, zi=None):
    return call(cdsp.channel.pulse_shape, x, osr=c['osr'], span=c['span'], pulse=c['name'], beta=c['beta'], zi=zi)


def check_shape(c):
    x = g.expand(c['x'])
    osr, span = c['osr'], c['span']
    up = np.zeros(len(x) * osr)
    up[::osr] = x
    what = f"pulse_shape {c['name']} osr={osr} span={span} beta={c['beta']}"
    if c['name'] == 'imp':
        h = np.zeros(2 * span * osr)
        h[0] = 1
    else:
        h = ref_pulse(c['name'], grid(osr, span), c['beta'])
    want = lin_conv(up, h)[:len(up)]
    zlen = 2 * osr * span - 1
    out, zo = shape(c, g.lay(x, c['lay']))
    close(out, want, what, 1e-6, 1e-6)
    expect(np.shape(zo) == (zlen,), f'{what}: final memory has shape {np.shape(zo)}, expected ({zlen},)')
    parts, z = [], None if c['zi'] else np.zeros(zlen)
    for p in g.split(x, c['cuts']):
        y, z = shape(c, p.copy(), z)
        parts.append(y)
    close(np.concatenate(parts), out, f"{what}: chunks {c['cuts']} with carried memory vs one call", 1e-8, 1e-9)
    close(z, zo, f'{what}: final memory after chunks vs one call', 1e-8, 1e-9)
    tail, _ = shape(c, np.zeros(2 * span), z)
    full = lin_conv(np.concatenate([up, np.zeros(2 * span * osr)]), h)
    close(tail, full[len(up):len(up) + 2 * span * osr], f'{what}: memory flushed with zeros', 1e-6, 1e-6)
    if c['name'] in ('sinc', 'rcos', 'rect'):
        k = np.arange(max(0, len(x) - span))
        close(out[(k + span) * osr], x[k].astype(float), f'{what}: symbols at their sampling instants (delay {span} symbols)', 1e-7, 1e-8)


def enum_defaults():
    return [dict(n=n) for n in (1, 2, 7)]


def check_defaults(c):
    x = np.arange(1, c['n'] + 1) * 1.5
    out, zo = call(cdsp.channel.pulse_shape, x.copy())
    close(out, np.concatenate([[0], x[:-1]]), 'pulse_shape with default arguments (rect, osr 1, span 1)', 1e-9, 1e-9)


def enum_long():
    return [dict(name=k, osr=o, span=s, beta=0.4, n=n, x=dict(seed=n, n=n, lo=-3, hi=3, style='uniform'), cuts=[n // 3, n // 2], lay='c', zi=True) for k, o, s, n in (('rcos', 4, 4, 270000), ('rrc', 8, 6, 140000), ('rect', 1, 1, 1100000), ('sinc', 16, 4, 70000), ('imp', 2, 2, 520000))]


PROP = Prop('C13', [
    Sub('very_long', None, check_shape, 0, 0, enum=enum_long, rule='more than a million output samples'),
    Sub('pulse', gen_pulse, check_pulse, 4000, 60000, nontrivial=lambda c: c['name'] in ('rcos', 'rrc'), rule='pulse values incl. roll-offs whose singular points fall on the grid', big=64),
    Sub('shape', gen_shape, check_shape, 2500, 40000, nontrivial=lambda c: c['osr'] > 1, rule='convolution, ISI, chunked streaming, flushing', big=96),
    Sub('defaults', None, check_defaults, 0, 0, enum=enum_defaults),
], rule='pulse name, oversampling, span, roll-off (0.02..1, biased so that removable singularities hit the sampling grid), symbols and chunk boundaries '
        'drawn; oracle: the textbook pulses evaluated stably (extended precision for the root-raised cosine), direct convolution, chunked = whole. '
        'Non-trivial: a roll-off pulse, oversampling above 1.',
    assumptions=['roll-off in [0.02, 1]', 'no jitter (see C16)'])
