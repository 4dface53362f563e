"""C20 PRBS channel estimation recovers the channel's taps, at their gain and position, for every pattern flag."""
import functools
import numpy as np
import CommDspy as cdsp
from vf.core import Prop, Sub, call, same, close, expect, fail
from vf import gen as g
from props.c01 import TAPS, lfsr
from props.c03 import con
from props.c10 import circ


@functools.lru_cache(None)
def bits2(order):
    return np.tile(lfsr(TAPS[order], [1] * order, 2 ** order - 1)[0], 2)


def ref_pattern(order, cons, full_scale, bit_order_inv, inv_pre, gray, inv_post):
    """One period of transmitted levels."""
    P = 2 ** order - 1
    b_ = bits2(order)
    lv = {'NRZ': [-1., 1.], 'OOK': [0., 1.], 'PAM4': [-3., -1., 1., 3.]}[cons]
    if cons == 'PAM4':
        first, second = b_[0::2][:P], b_[1::2][:P]
        if bit_order_inv:
            first, second = second, first
        s = first + 2 * second
        if inv_pre:
            s = 3 - s
        if gray:
            s = s ^ (s >> 1)
    else:
        s = b_[:P]
        if inv_pre:
            s = 1 - s
    lv = np.array(lv)
    if full_scale:
        lv = lv / np.sqrt(np.mean(lv ** 2))
    a = lv[s]
    return -a if inv_post else a


def gen_link(draw, orders=(7, 7, 9), cons=('NRZ', 'OOK', 'PAM4', 'PAM4')):
    order = g.pick(draw, *orders) if not g.large() else g.pick(draw, 7, 9, 11, 11, 13)
    P = 2 ** order - 1
    npre, npost = (g.i(draw, 0, 3), g.i(draw, 0, 6)) if not g.large() else (g.i(draw, 0, 10), g.i(draw, 0, 30))
    mags = [g.grid_float(draw, -1.0, 1.0, 20) for _ in range(npre + npost)]
    tot = sum(abs(v) for v in mags)
    k = min(1.0, g.pick(draw, 0.25, 0.45, 0.6) / tot) if tot else 1.0
    mags = [v * k for v in mags]
    return dict(order=order, cons=g.pick(draw, *cons), pre=mags[:npre], post=mags[npre:], gain=g.pick(draw, 1.0, 1.0, 0.3, 7.5),
                rot=g.pick(draw, 0, P - 1, g.i(draw, 0, P - 1)), reps=g.pick(draw, 1, 1, 2, 3, 5) if not g.large() else g.pick(draw, 1, 2, 8, 40), extra=g.pick(draw, 0, 0, 1, P - 1, g.i(draw, 0, P - 1)),
                fs=g.b(draw), bo=g.b(draw), ip=g.b(draw), gray=g.b(draw), io=g.b(draw), noise=g.pick(draw, 0.0, 0.0, 0.02, 0.1), nseed=g.seed(draw))


def link(c, circular=True):
    """(received samples, transmitted level per sample, taps with cursor at index len(pre))."""
    a = ref_pattern(c['order'], c['cons'], c['fs'], c['bo'], c['ip'], c['gray'], c['io'])
    P = len(a)
    n = c['reps'] * P + c['extra']
    a = np.roll(a, -c['rot'])
    h = np.array(c['pre'] + [1.0] + c['post']) * c['gain']
    y = np.zeros(P)
    for j, v in enumerate(h):
        y += v * np.roll(a, j - len(c['pre']))
    y = np.tile(y, n // P + 1)[:n]
    if c['noise']:
        y = y + np.random.default_rng(c['nseed']).normal(size=n) * c['noise'] * c['gain']
    return y, a, h


def lock(a, y, plen):
    """Rotation chosen by direct correlation with the first min(plen, len(y)) samples; None when ambiguous."""
    m = min(plen, len(y))
    P = len(a)
    yy = np.zeros(P)
    np.add.at(yy, np.arange(m) % P, y[:m])
    x = circ(a, yy)
    k = int(np.argmax(x))
    rest = np.delete(x, k)
    if len(rest) and rest.max() > x[k] - 1e-6 * (np.abs(x).max() + 1e-12):
        return None
    return k


def gen_est(draw):
    c = gen_link(draw)
    c.update(npre=len(c['pre']) + g.i(draw, 0, 20 if g.large() else 4), npost=len(c['post']) + g.i(draw, 0, 60 if g.large() else 8), norm=g.b(draw), kwdef=g.b(draw))
    return c


def check_est(c):
    y, a, h = link(c)
    P = len(a)
    k = lock(a, y, P if c['cons'] == 'PAM4' else 2 * P)
    if k != 0:
        return          # noise or pattern statistics put the strongest correlation elsewhere
    kw = dict(prbs_full_scale=c['fs'], channel_postcursor=c['npost'], channel_precursor=c['npre'], normalize=c['norm'], bit_order_inv=c['bo'], pn_inv_precoding=c['ip'],
              gray_coding=c['gray'], pn_inv_postcoding=c['io'])
    if c['kwdef']:
        kw = {q: v for q, v in kw.items() if v is not False}
    ch, err = call(cdsp.channel_estimation_prbs, cdsp.PrbsEnum(c['order']), y.copy(), con(c['cons']), **kw)
    L = c['npre'] + c['npost'] + 1
    ym = np.mean(y[:c['reps'] * P].reshape(-1, P), axis=0)
    A = np.stack([np.roll(a, j - c['npre']) for j in range(L)], axis=1)
    want, res, rank, sv = np.linalg.lstsq(A, ym, rcond=None)
    if rank < L or sv[0] / sv[-1] > 1e4:
        return
    what = f"channel_estimation_prbs PRBS{c['order']} {c['cons']} pre={c['npre']} post={c['npost']} flags={ {q: c[q] for q in ('fs', 'bo', 'ip', 'gray', 'io')} }"
    exp = want / want.max() if c['norm'] else want
    close(ch, exp, f'{what}: estimate vs least squares', 1e-6, 1e-7)
    if not c['noise']:
        true = np.zeros(L)
        o = c['npre'] - len(c['pre'])
        true[o:o + len(h)] = h
        close(ch, true / true.max() if c['norm'] else true, f'{what}: estimate vs the true taps (cursor at index {c["npre"]})', 1e-6, 1e-6)
    e = np.ravel(err)
    if e.size:
        v = float(np.sum((ym - A @ want) ** 2))
        expect(abs(float(e[0]) - v) <= 1e-6 * v + 1e-9 * float(np.sum(ym ** 2)), f'{what}: reported error {e[0]}, sum of squared residuals {v}')


def enum_links():
    r = np.random.default_rng(20)
    for j, (order, cons, reps, rot) in enumerate([(13, 'NRZ', 3, 8190), (13, 'PAM4', 1, 4096), (13, 'OOK', 2, 5), (15, 'PAM4', 2, 20000), (15, 'NRZ', 1, 32766), (15, 'OOK', 3, 1), (9, 'PAM4', 2500, 17), (7, 'NRZ', 9000, 126)]):
        f = [bool(v) for v in r.integers(0, 2, 5)]
        yield dict(order=order, cons=cons, pre=[0.1, -0.12], post=[0.25, -0.1, 0.05, 0.02], gain=(1.0, 0.3, 7.5)[j % 3], rot=rot, reps=reps, extra=int(r.integers(0, 2 ** order - 1)), fs=f[0], bo=f[1], ip=f[2],
                   gray=f[3], io=f[4], noise=0.1 if j % 2 else 0.0, nseed=j)


def enum_long():
    r = np.random.default_rng(21)
    return [dict(order=13, cons=q, pre=[0.1, -0.12], post=[0.25, -0.1, 0.05], gain=(1.0, 0.3)[j % 2], rot=int(r.integers(0, 8191)), reps=1 + j % 2, extra=int(r.integers(0, 8191)), fs=bool(j & 1), bo=bool(j & 2), ip=bool(j & 4), gray=bool(j & 8),
                 io=bool(j & 16), noise=0.1 if (j + (q == 'NRZ')) % 2 else 0.0, nseed=j, npre=2 + j % 3, npost=3 + j % 4, norm=j % 3 == 0, kwdef=False) for q in ('NRZ', 'PAM4', 'OOK') for j in range(32)] + [dict(c, npre=4, npost=9, norm=j % 3 == 0, kwdef=False) for j, c in enumerate(enum_links())]


def enum_default():
    return [dict(cons=q, order=11) for q in ('NRZ', 'PAM4')]


def check_default(c):
    """Default pre/post-cursor numbers (19 and 500)."""
    d = dict(order=c['order'], cons=c['cons'], pre=[-0.1, 0.2], post=[0.3, -0.15, 0.05], gain=1.0, rot=100, reps=2, extra=50, fs=False, bo=False, ip=False, gray=False, io=False,
             noise=0.0, nseed=0)
    y, a, h = link(d)
    ch, _ = call(cdsp.channel_estimation_prbs, cdsp.PrbsEnum(c['order']), y, con(c['cons']))
    true = np.zeros(520)
    true[17:17 + len(h)] = h
    close(ch, true, f"channel_estimation_prbs {c['cons']} with default lengths", 1e-5, 1e-6)


PROP = Prop('C20', [
    Sub('estimate', gen_est, check_est, 3000, 40000, nontrivial=lambda c: len(c['pre']) + len(c['post']) > 0, big=64, rule='random channels, alignments, repetitions, flags, noise'),
    Sub('long_links', None, check_est, 0, 0, enum=enum_long, rule='PRBS13 and PRBS15, and thousands of repetitions'),
    Sub('defaults', None, check_default, 0, 0, enum=enum_default, rule='default lengths on PRBS11'),
], rule='PRBS order, constellation, all pattern flags, channel taps (cursor dominant), gain, alignment, whole and partial repetitions, noise, numbers of estimated '
        'cursors and normalisation drawn; oracle: the true taps for clean signals and an independently built least-squares system otherwise. Non-trivial: ISI present.',
    assumptions=['the received signal is the periodic steady-state response; the strongest correlation is at the cursor (checked by direct correlation, else skipped)'])
