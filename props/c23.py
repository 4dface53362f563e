"""C23 Mueller-Muller timing step: sign of weighted post-cursor minus pre-cursor correlation."""
import numpy as np
import CommDspy as cdsp
from vf.core import Prop, Sub, call, same, close, expect, fail
from vf import gen as g


def gen_mm(draw):
    n = g.size(draw, 2, 400, big=60000)
    return dict(n=n, xseed=g.seed(draw), kind=g.pick(draw, 'channel', 'channel', 'random', 'exact', 'adc'), pre=g.grid_float(draw, -0.5, 0.5, 20), post=g.grid_float(draw, -0.5, 0.5, 20),
                pw=g.pick(draw, None, 1, 2.0, 0.5, 0, 0.0, 30, -1), qw=g.pick(draw, None, 1, 2.0, 0.25, 0, 0.0, 12.5, -0.5), tol=g.pick(draw, None, 1e-3, 0.05, 0.3, 1e-6, 0, 5.0), lev=g.pick(draw, 2, 4), lay=g.layout(draw), mix=g.b(draw),
                near=g.pick(draw, None, None, None, 0.5, 0.9, 0.99, 0.9999, 1.0001, 1.01, 1.1, 1.5, 2.0))


def check_mm(c):
    r = np.random.default_rng(c['xseed'])
    n = c['n']
    ref = r.choice([-1., 1] if c['lev'] == 2 else [-3., -1, 1, 3], n)
    if c['kind'] == 'random':
        sig = r.normal(size=n)
    elif c['kind'] == 'adc':
        ref, sig = r.choice([-90, -31, 30, 93], n), r.integers(-128, 128, n)
    elif c['kind'] == 'exact':
        sig = ref.copy()
    else:
        sig = ref + c['pre'] * np.concatenate([ref[1:], [0]]) + c['post'] * np.concatenate([[0], ref[:-1]])
    if c.get('mix'):                    # integer symbols with real samples, or the other way round
        ref, sig = (ref.astype(float), sig) if c['kind'] == 'adc' else (ref.astype(int), sig)
    pw, qw, tol = (d if v is None else v for v, d in ((c['pw'], 1), (c['qw'], 1), (c['tol'], 1e-3)))
    pre = float(np.sum(ref[1:] * sig[:-1])) / (n - 1)
    post = float(np.sum(ref[:-1] * sig[1:])) / (n - 1)
    v = post * qw - pre * pw
    if c['near'] and c['kind'] in ('channel', 'random') and abs(v) > 1e-6 and tol:     # amplitudes that differ by about the tolerance
        k = tol * c['near'] / abs(v)
        sig, v, pre, post = sig * k, v * k, pre * k, post * k
    if abs(abs(v) - tol) < 1e-9 * (1 + abs(v)):
        return
    want = 0 if abs(v) < tol else (1 if v > 0 else -1)
    kw = {k: x for k, x in (('pre_weight', c['pw']), ('post_weight', c['qw']), ('tol', c['tol'])) if x is not None}
    got = call(cdsp.rx.mueller_muller_step, g.lay(sig, c['lay']), g.lay(ref, c['lay']), **kw)
    expect(np.shape(got) == () and float(got) == want, f'mueller_muller_step: {got}, expected {want} (pre {pre}, post {post}, weights {pw},{qw}, tol {tol})')


def gen_ch(draw):
    return dict(n=g.pick(draw, 3000, 6000), xseed=g.seed(draw), pre=g.i(draw, -4, 4) / 10, post=g.i(draw, -4, 4) / 10)


def check_ch(c):
    """On a long random pattern the step points to the larger of the channel's first cursors."""
    r = np.random.default_rng(c['xseed'])
    ref = r.choice([-1., 1], c['n'])
    sig = ref + c['pre'] * np.concatenate([ref[1:], [0]]) + c['post'] * np.concatenate([[0], ref[:-1]])
    d = c['post'] - c['pre']
    if 0 < abs(d) < 0.09:
        return
    got = int(call(cdsp.rx.mueller_muller_step, sig, ref, tol=0.05 if d else 0.09))
    # |noise| of the difference estimator is far below these margins at this length except in ~1e-9 of the cases
    if d:
        expect(got in (0, int(np.sign(d))) if abs(d) < 0.15 else got == int(np.sign(d)), f'step {got} for pre-cursor {c["pre"]}, post-cursor {c["post"]}')


def gen_sym(draw):
    c = gen_mm(draw)
    c.update(pw=None, qw=None, tol=1e-9, kind='random')
    return c


def check_sym(c):
    """Time reversal swaps the cursors and flips the step; scaling does not matter."""
    r = np.random.default_rng(c['xseed'])
    ref, sig = r.choice([-1., 1], c['n']), r.normal(size=c['n'])
    a = int(call(cdsp.rx.mueller_muller_step, sig.copy(), ref.copy(), tol=1e-9))
    b_ = int(call(cdsp.rx.mueller_muller_step, sig[::-1].copy(), ref[::-1].copy(), tol=1e-9))
    k = int(call(cdsp.rx.mueller_muller_step, sig * 3.5, ref.copy(), tol=1e-9))
    v = abs(float(np.dot(ref[:-1], sig[1:]) - np.dot(ref[1:], sig[:-1]))) / (c['n'] - 1)
    if v > 1e-7:
        expect(a == -b_ and a != 0, f'time reversal: steps {a} and {b_}')
        expect(a == k, f'scaling: steps {a} and {k}')


def enum_long():
    return [dict(n=1100000, xseed=j, kind=k, pre=p, post=q, pw=None, qw=None, tol=None, lev=4, lay='c', near=None) for j, (k, p, q) in enumerate([('channel', 0.2, 0.1), ('channel', -0.1, 0.3), ('channel', 0.0, 0.0), ('adc', 0.0, 0.0)])]


PROP = Prop('C23', [
    Sub('very_long', None, check_mm, 0, 0, enum=enum_long, rule='more than a million samples'),
    Sub('step', gen_mm, check_mm, 12000, 120000, nontrivial=lambda c: c['kind'] != 'exact', big=48, rule='value against explicit sums, weights, tolerance'),
    Sub('direction', gen_ch, check_ch, 400, 5000, rule='direction on long patterns through a 3-tap channel'),
    Sub('symmetry', gen_sym, check_sym, 2000, 20000, big=24, rule='time reversal and scale'),
], rule='patterns, channels, weights, tolerances drawn; oracle: explicit correlation sums (cases at the tolerance boundary skipped). Non-trivial: signal differs '
        'from the pattern.',
    assumptions=['at least two samples'])
