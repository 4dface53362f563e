"""C17 FFE-DFE: the documented recursion, its memories, streaming and oversampling."""
import numpy as np
import CommDspy as cdsp
from vf.core import Prop, Sub, call, same, close, expect, fail
from vf import gen as g

PAM4 = [-3.0, -1.0, 1.0, 3.0]


def decide(levels, v):
    """Nearest level and the distance to the nearest decision threshold."""
    k = min(range(len(levels)), key=lambda q: abs(levels[q] - v))
    m = min((abs(v - (levels[q] + levels[q + 1]) / 2) for q in range(len(levels) - 1)), default=1e9)
    return levels[k], m


def ref(x, ffe, dfe, levels, osr=1, phase=0, zf=None, zd=None):
    """Slicer input, last len(ffe) inputs, last decisions (newest first), smallest decision margin."""
    L = len(ffe)
    hist = [0.0] * (L - 1) if zf is None else [float(v) for v in zf]
    line = hist + [float(v) for v in x]
    mem = ([0.0] * len(dfe) if zd is None else [float(v) for v in zd]) if dfe is not None else None
    out, margin, dec = [], 1e9, []
    for n in range(len(x)):
        v = 0.0
        for i_ in range(L):
            v += ffe[i_] * line[n + L - 1 - i_]
        if mem is not None:
            for t, m in zip(dfe, mem):
                v -= t * m
            d, mg = decide(levels, v)
            margin = min(margin, mg)
            dec.append(d)
            if n % osr == (phase + osr // 2) % osr and n - osr // 2 >= 0:
                mem = [dec[n - osr // 2]] + mem[:-1]
        out.append(v)
    return np.array(out), np.array(line[-L:]), None if mem is None else np.array(mem), margin


def lev_spec(draw):
    return g.pick(draw, None, None, [-1.0, 1.0], [-1.0, 0.0, 1.0], [0.0, 1.0], [-0.6, -0.2, 0.2, 0.6], [-3.0, -1.0, 1.0, 3.0], [-3, -1, 1, 3], [0, 1])


def tap_list(draw, n, scale=1.0):
    return [g.grid_float(draw, -scale, scale, 20) for _ in range(n)]


def gen_base(draw, nmax=80, osr_max=1):
    ffe = g.pick(draw, 'none', 'default', 'taps', 'taps', 'taps', 'taps', 'taps')
    nd = g.pick(draw, 0, 1, 1, 2, 3, 5)
    n = g.size(draw, 1, nmax, big=nmax * 30)
    if g.large() and nd:
        nd = g.pick(draw, nd, g.i(draw, 5, 40))
    f = tap_list(draw, g.i(draw, 1, 7) if not g.large() else g.size(draw, 1, 7, big=60)) if ffe == 'taps' else [1.0]
    k = g.pick(draw, *range(len(f)))
    f[k] = g.pick(draw, 1.0, f[k])
    return dict(ffe=ffe, f=f, d=tap_list(draw, nd, 0.6) if nd else None, lev=lev_spec(draw), x=g.floats(draw, n) if g.i(draw, 0, 3) else g.ints(draw, n, -3, 3), lay=g.layout(draw),
                zf=g.pick(draw, None, None, 'short', 'full'), zd=g.b(draw), zseed=g.seed(draw))


def run(c, x, zf, zd, **kw):
    if c['ffe'] == 'none':
        kw['ffe_taps'] = None
    elif c['ffe'] == 'taps':
        kw['ffe_taps'] = np.array(c['f'])
    if c['d'] is not None:
        kw['dfe_taps'] = np.array(c['d'])
    if c['lev'] is not None:
        kw['levels'] = np.array(c['lev'])
    if zf is not None:
        kw['zi_ffe'] = np.array(zf)
    if zd is not None:
        kw['zi_dfe'] = np.array(zd)
    return call(cdsp.rx.ffe_dfe, x, **kw)


def unpack(c, out, what):
    """(signal, ffe memory or None, dfe memory or None) following the documented return forms."""
    if c['d'] is None and len(c['f']) == 1:
        expect(not isinstance(out, tuple), f'{what}: a single-tap FFE alone returns only the signal')
        return out, None, None
    n = 3 if (c['d'] is not None and len(c['f']) > 1) else 2
    expect(isinstance(out, tuple) and len(out) == n, f'{what}: expected {n} return values')
    if n == 3:
        return out
    return (out[0], None, out[1]) if c['d'] is not None else (out[0], out[1], None)


def memories(c):
    r = np.random.default_rng(c['zseed'])
    L = len(c['f'])
    zf = None
    if c['zf'] and not (L == 1 and c['d'] is None):
        full = np.round(r.normal(size=L), 3)
        zf = full if c['zf'] == 'full' else full[1:]
    lev = c['lev'] or PAM4
    zd = r.choice(lev, len(c['d'])) if c['zd'] and c['d'] is not None else None
    return zf, zd


def check_one(c, osr=1, phase=0):
    x = g.expand(c['x'])
    zf, zd = memories(c)
    L = len(c['f'])
    want, mf, md, margin = ref(x, c['f'], c['d'], c['lev'] or PAM4, osr, phase, None if zf is None else zf[-(L - 1):] if L > 1 else [], zd)
    if margin < 1e-6:
        return          # a decision sits on a threshold: rounding may go either way
    what = f"ffe_dfe ffe={c['ffe']}{c['f']} dfe={c['d']} osr={osr} phase={phase}"
    kw = {} if (osr, phase) == (1, 0) else dict(osr=osr, phase=phase)
    y, of, od = unpack(c, run(c, g.lay(x, c['lay']), zf, zd, **kw), what)
    close(y, want, f'{what}: slicer input', 1e-7, 1e-9)
    if of is not None:
        close(of, mf, f'{what}: FFE memory (last {L} inputs)', 1e-9, 1e-12)
    if od is not None:
        close(od, md, f'{what}: DFE memory (last decisions, newest first)', 1e-9, 1e-12)


def gen_stream(draw):
    c = gen_base(draw)
    n = len(g.expand(c['x']))
    c.update(cuts=g.chunks(draw, n), zf=None, zd=False)
    return c


def check_stream(c):
    x = g.expand(c['x'])
    want, mf, md, margin = ref(x, c['f'], c['d'], c['lev'] or PAM4)
    if margin < 1e-6:
        return
    parts, zf, zd = [], None, None
    what = f"ffe_dfe ffe={c['ffe']}{c['f']} dfe={c['d']} in chunks {c['cuts']}"
    for p in g.split(x, c['cuts']):
        y, zf, zd = unpack(c, run(c, p.copy(), zf, zd), what)
        parts.append(y)
    close(np.concatenate(parts), want, f'{what} with carried memories vs one call', 1e-7, 1e-9)
    if zf is not None:
        close(zf, mf, f'{what}: final FFE memory', 1e-9, 1e-12)
    if zd is not None:
        close(zd, md, f'{what}: final DFE memory', 1e-9, 1e-12)


def gen_osr(draw):
    c = gen_base(draw)
    osr = g.i(draw, 2, 9) if not g.large() else g.i(draw, 2, 40)
    c.update(osr=osr, phase=g.i(draw, 0, osr - 1))
    if c['d'] is None:
        c['d'] = tap_list(draw, 2, 0.6)
    return c


def check_osr(c):
    check_one(c, c['osr'], c['phase'])


def gen_hold(draw):
    c = gen_base(draw, nmax=40)
    c.update(zf=None, zd=False, osr=g.i(draw, 2, 7))
    if c['d'] is None:
        c['d'] = tap_list(draw, 2, 0.6)
    c['phase'] = g.i(draw, 0, c['osr'] - 1)
    return c


def check_hold(c):
    """Oversampling a held signal (FFE taps zero-stuffed) and sampling it at the DFE phase gives the symbol-rate result."""
    x = g.expand(c['x']).astype(float)
    osr, ph = c['osr'], c['phase']
    want, _, _, margin = ref(x, c['f'], c['d'], c['lev'] or PAM4)
    if margin < 1e-6:
        return
    up = np.zeros((len(c['f']) - 1) * osr + 1)
    up[::osr] = c['f']
    held = np.repeat(x, osr)
    kw = dict(ffe_taps=up, dfe_taps=np.array(c['d']), osr=osr, phase=ph)
    if c['lev'] is not None:
        kw['levels'] = np.array(c['lev'])
    out = call(cdsp.rx.ffe_dfe, held, **kw)
    close(np.asarray(out[0])[ph::osr], want, f"ffe_dfe of the held signal at osr={osr}, sampled at phase {ph}, vs the symbol-rate result", 1e-7, 1e-9)


def enum_long():
    return [dict(ffe='taps', f=[0.1, 1.0, -0.2], d=d, lev=l, x=dict(fseed=9, n=n, scale=4.0, style='normal'), lay='c', zf=None, zd=False, zseed=1) for d, l, n in (([0.3, -0.1], None, 70000), ([0.2], [-1.0, 1.0], 140000), (None, None, 1100000))]


PROP = Prop('C17', [
    Sub('very_long', None, check_one, 0, 0, enum=enum_long, rule='a hundred thousand symbols (a million without feedback)'),
    Sub('one_call', gen_base, check_one, 3500, 60000, nontrivial=lambda c: c['d'] is not None, rule='recursion, return forms, initial and final memories', big=96),
    Sub('stream', gen_stream, check_stream, 2000, 30000, nontrivial=lambda c: len(c['cuts']) > 0, rule='arbitrary chunking with carried memories', big=64),
    Sub('oversampled', gen_osr, check_osr, 1500, 20000, rule='DFE clocked at one phase of an oversampled signal', big=48),
    Sub('held', gen_hold, check_hold, 1200, 15000, rule='oversampled run of a held signal equals the symbol-rate run', big=32),
], rule='FFE/DFE taps (absent, one, several), levels, initial memories of both accepted sizes, signals (float/int) and chunk boundaries, OSR and phase drawn; '
        'oracle: scalar recursion with explicit nearest-level decisions. Cases with a decision within 1e-6 of a threshold are skipped. Non-trivial: a DFE is '
        'present / more than one chunk.',
    assumptions=['levels increasing', 'chunks are not empty; carried memories are claimed for symbol-rate (osr=1) streams'])
