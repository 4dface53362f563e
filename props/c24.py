"""C24 power spectrum analysis: tones and noise read their true power and frequency in every mode."""
import numpy as np
from scipy.signal import get_window
from vf.core import Prop, Sub, call, same, close, expect, fail
from vf import gen as g

MODES = ('dB', 'dBm', 'dBm/Hz', 'dBuv', 'dBuv/sqrt(Hz)', 'dBc', 'dBFs')


def psa():
    from CommDspy.psa import psa as f
    return f


def factor(mode, sig, fs, rbw, obw, r, fullscale, sb):
    """Power scale of a mode relative to 'dB'."""
    eff = fs / 2 if (not np.iscomplexobj(sig) or np.all(sig.imag == 0)) and sb == 'DSB' else fs
    if obw is not None:
        mode = 'dBc'
    ob = rbw if obw is None else obw
    return {'dB': 1.0, 'dBm': 1000 / r * rbw / eff, 'dBm/Hz': 1000 / r / eff, 'dBuv': rbw / eff * 1e12, 'dBuv/sqrt(Hz)': 1e12 / eff,
            'dBc': ob / eff / np.mean(np.abs(sig) ** 2), 'dBFs': ob / eff / fullscale ** 2}[mode]


def ref_welch(x, fs, rbw, osr, window, overlap):
    n = int(1.9 * np.ceil(fs / rbw))
    w = get_window(window, n)
    nfft = 2 ** int(np.ceil(np.log2(n * osr)))
    step = n - int(np.floor(n * overlap))
    acc, k = 0, 0
    cplx = np.iscomplexobj(x)
    for s in range(0, len(x) - n + 1, step):
        seg = x[s:s + n]
        seg = (seg - seg.mean()) * w
        f = np.fft.fft(seg, nfft) if cplx else np.fft.rfft(seg, nfft)
        acc = acc + np.abs(f) ** 2
        k += 1
    p = acc / k / w.sum() ** 2
    if cplx:
        return np.fft.fftfreq(nfft, 1 / fs), p
    p[1:-1] *= 2
    return np.fft.rfftfreq(nfft, 1 / fs), p


def gen_sig(draw):
    fs = g.pick(draw, 1.0, 1e9, 48e3, 0.5)
    norbw = g.i(draw, 0, 9) == 0
    div = 1000 if norbw else g.pick(draw, 10, 16, 33, 60, g.i(draw, 9, 80)) if not g.large() else g.pick(draw, 100, 256, 1000, g.i(draw, 100, 3000))
    win = int(1.9 * np.ceil(fs / (fs / div)))       # the quotient may round up past the whole number
    return dict(fs=fs, div=div, n=g.size(draw, win, max(1500, 2 * win), around=(win, win + 1, 2 * win), big=60000), xseed=g.seed(draw), kind=g.pick(draw, 'noise', 'tone', 'mix', 'dc'), cplx=g.pick(draw, False, False, True),
                mode=g.pick(draw, None, *MODES), obw=g.pick(draw, None, None, 0.25), r=g.pick(draw, None, 50, 75, 1), osr=g.pick(draw, None, 1, 2, 4, 3, 8), window=g.pick(draw, None, 'hann', 'hamming', 'flattop', 'blackmanharris', 'boxcar'),
                overlap=g.pick(draw, None, 0.5, 0.0, 0.75, 0.3), fullscale=g.pick(draw, None, 1.0, 2.0, 0.5), sb=g.pick(draw, None, 'DSB', 'SSB'), shape=g.b(draw), norbw=norbw)


def make(c):
    r = np.random.default_rng(c['xseed'])
    n = c['n']
    t = np.arange(n)
    x = {'noise': lambda: r.normal(size=n), 'tone': lambda: 2 * np.cos(2 * np.pi * r.uniform(0.1, 0.4) * t), 'dc': lambda: 3 + 0.1 * r.normal(size=n),
         'mix': lambda: np.cos(2 * np.pi * 0.21 * t) + 0.05 * r.normal(size=n)}[c['kind']]()
    if c['cplx']:
        x = x + 1j * r.normal(size=n)
    return x


def kw_of(c, rbw):
    kw = {} if c.get('norbw') else dict(rbw=rbw)
    if c['obw'] is not None:
        kw['obw'] = c['obw'] * c['fs']
    for k, name in (('mode', 'mode'), ('r', 'r'), ('osr', 'osr'), ('window', 'window'), ('overlap', 'overlap'), ('fullscale', 'fullscale'), ('sb', 'sb_mode')):
        if c[k] is not None:
            kw[name] = c[k]
    return kw


def check_ref(c):
    x = make(c)
    fs = c['fs']
    rbw = fs / c['div']
    arg = x.reshape(2, -1) if c['shape'] and len(x) % 2 == 0 else x
    f, p = call(psa(), arg.copy(), fs, **kw_of(c, rbw))
    rf, rp = ref_welch(x, fs, rbw, c['osr'] or 4, c['window'] or 'blackmanharris', 0.75 if c['overlap'] is None else c['overlap'])
    k = factor(c['mode'] or 'dB', x, fs, rbw, None if c['obw'] is None else c['obw'] * fs, c['r'] or 50, c['fullscale'] or 1, c['sb'] or 'DSB')
    what = f"psa mode={c['mode']} n={c['n']} fs={fs} rbw=fs/{c['div']} complex={c['cplx']}"
    f, p = np.asarray(f), np.asarray(p)
    expect(f.shape == rf.shape and np.allclose(f / fs, rf / fs, rtol=0, atol=1e-9), f'{what}: frequency axis {f[:4]}... of {f.shape}, expected {rf[:4]}... of {rf.shape}')
    want = rp * k
    expect(p.shape == want.shape, f'{what}: {p.shape} values')
    bad = ~(np.abs(p - want) <= 1e-6 * want + 1e-9 * want.max())
    expect(not bad.any(), lambda: f'{what}: spectrum differs at {f[bad][:3]}: {p[bad][:3]}, expected {want[bad][:3]}')


def gen_tone(draw):
    return dict(fs=g.pick(draw, 1.0, 53e9, 1e4), div=g.pick(draw, 20, 50, 100), amp=g.grid_float(draw, 0.1, 5.0, 49), f=g.grid_float(draw, 0.15, 0.35, 20), ph=g.i(draw, 0, 6), seg=g.i(draw, 3, 10),
                cplx=g.b(draw), neg=g.b(draw), default=g.pick(draw, False, False, True))


def check_tone(c):
    """A sine of amplitude A peaks at its frequency with power A^2/2 (A^2 for a complex exponential)."""
    n = 8000 if c['default'] else int(1.9 * np.ceil(c['fs'] / (c['fs'] / c['div']))) * c['seg']
    t = np.arange(n)
    f0 = -c['f'] if c['cplx'] and c['neg'] else c['f']
    x = c['amp'] * (np.exp(1j * (2 * np.pi * f0 * t + c['ph'])) if c['cplx'] else np.cos(2 * np.pi * f0 * t + c['ph']))
    rbw = None if c['default'] else c['fs'] / c['div']
    f, p = call(psa(), x, c['fs'], **({} if rbw is None else dict(rbw=rbw)))
    want = c['amp'] ** 2 * (1.0 if c['cplx'] else 0.5)
    k = int(np.argmax(p))
    res = 1 / (1000 if c['default'] else c['div'])
    expect(abs(f[k] / c['fs'] - f0) <= res, f'tone at {f0} fs peaks at {f[k] / c["fs"]} fs')
    expect(abs(10 * np.log10(p[k] / want)) <= 0.25, f'tone of amplitude {c["amp"]} reads {p[k]}, expected {want}')
    far = (np.abs(f / c['fs'] - f0) > 6 * res) & (np.abs(f / c['fs']) > 3 * res)     # the mean removal leaves a trace around DC
    if far.any():
        expect(float(np.max(p[far])) < 1e-4 * want, f'leakage {np.max(p[far])} far from a tone of power {want}')


def enum_long():
    return [dict(fs=1e6, div=d, n=1100000, xseed=j, kind=k, cplx=x, mode=m, obw=None, r=None, osr=None, window=None, overlap=None, fullscale=None, sb=None, shape=False)
            for j, (d, k, x, m) in enumerate([(1000, 'noise', False, None), (200, 'mix', True, 'dBm'), (60000, 'tone', False, 'dBc')])]


PROP = Prop('C24', [
    Sub('very_long', None, check_ref, 0, 0, enum=enum_long, rule='more than a million samples'),
    Sub('welch', gen_sig, check_ref, 5000, 50000, nontrivial=lambda c: c['mode'] not in (None, 'dB'), big=64, rule='every mode and option against a hand-written averaged periodogram'),
    Sub('tone', gen_tone, check_tone, 1000, 12000, rule='frequency and power of single tones, leakage'),
], rule='signals (noise, tones, DC, complex), sampling rates, resolution bandwidth, windows, overlap, zero-padding, modes, side-band and full-scale options drawn; '
        'oracle: an averaged windowed periodogram written out with the FFT and the textbook scale of each mode. Non-trivial: a mode with a normalisation.',
    assumptions=['at least one full window of samples; an explicit resolution bandwidth except for long tones'])
