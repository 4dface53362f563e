"""C22 LMS gradients are the documented correlations of the error with the equalizer inputs and decisions."""
import numpy as np
import CommDspy as cdsp
from vf.core import Prop, Sub, call, same, close, expect, fail
from vf import gen as g

LEV = {'NRZ': [-1., 1.], 'PAM4': [-3., -1., 1., 3.], 'PAM3': [-1., 0., 1.], 'custom': [-0.9, -0.2, 0.4, 1.1], 'adc': [-90, -31, 30, 93], 'PAM4i': [-3, -1, 1, 3], 'OOKi': [0, 1]}


def gen_lms(draw):
    n = g.size(draw, 5, 300, big=80000)
    kf, kd = g.pick(draw, 0, 1, 3, 6, 11), g.pick(draw, 0, 1, 2, 5, 10)
    m = min(60 if g.large() else 20, n - 4)
    return dict(n=n, lev=g.pick(draw, *LEV), xseed=g.seed(draw), ffe=g.some(draw, -m, m, min(kf, 2 * m + 1), True),
                dfe=g.some(draw, 1, m, min(kd, m), True), refs=g.pick(draw, None, None, 'given', 'wrong'), sd=g.pick(draw, 0.05, 0.4, 1.5),
                sigma=g.pick(draw, None, 0.5, 1.0, 1, 2.0, 3, 6.0, 0.3, 0.15), omit=g.b(draw), lay=g.layout(draw), far=g.b(draw))


def data(c):
    r = np.random.default_rng(c['xseed'])
    lev = np.array(LEV[c['lev']])
    sent = r.choice(lev, c['n'])
    out = sent + r.normal(size=c['n']) * c['sd']
    if c.get('far'):
        s = 1.0 if c['sigma'] is None else c['sigma']
        out = np.where(r.random(c['n']) < 0.3, out + r.uniform(-12, 12, c['n']) * s, out)
        out = np.clip(out, lev[0] - max(1.2, 15 * s), lev[-1] + max(1.2, 15 * s))
    else:
        out = np.clip(out, lev[0] - 1.2, lev[-1] + 1.2)
    x = np.convolve(sent, [1, 0.3, -0.1])[:c['n']] + r.normal(size=c['n']) * 0.1
    if c['lev'] == 'adc':               # integer converter codes
        out = np.clip(np.round(sent + r.normal(size=c['n']) * 30 * c['sd']), -128, 127).astype(int)
        x = np.clip(np.round(x), -128, 127).astype(int)
    th = (lev[1:] + lev[:-1]) / 2
    if c['lev'] == 'adc':
        out = np.where(np.isin(out, th), out + 1, out)
    near = np.min(np.abs(out[:, None] - th[None, :]), axis=1) < 1e-6
    out = np.where(near, out + 1e-3, out) if near.any() else out
    dec = lev[np.argmin(np.abs(out[:, None] - lev[None, :]), axis=1)]
    if c['lev'] in ('PAM4i', 'OOKi') and c['xseed'] % 2:       # integer inputs with real outputs and integer levels
        x = np.round(x * 20).astype(int)
    if c['refs'] == 'given':
        ref = sent
    elif c['refs'] == 'wrong':
        ref = r.choice(lev, c['n'])
    else:
        ref = None
    return lev, x, out, dec if ref is None else ref, ref


def grads(c, x, ref, e):
    N = c['n']
    gf, gd = [], []
    for k in c['ffe']:
        v = e[max(k, 0):N + min(k, 0)] * x[max(-k, 0):N - max(k, 0)]      # pairs e[n], x[n-k] inside the vectors
        gf.append(0.5 * np.sum(v) / len(v))
    for k in c['dfe']:
        v = e[k:] * ref[:N - k]
        gd.append(-0.5 * np.sum(v) / len(v))
    return np.array(gf), np.array(gd)


def judge(c, out, loss, gf, gd, what, tol):
    nf, nd = len(gf), len(gd)
    if nf == 0 and nd == 0:
        expect(not isinstance(out, tuple), f'{what}: without taps only the loss is returned')
        parts = (out,)
    else:
        want = 1 + (nf > 0) + (nd > 0)
        expect(isinstance(out, tuple) and len(out) == want, f'{what}: expected {want} return values')
        parts = out
    expect(abs(float(parts[0]) - loss) <= tol * (abs(loss) + 1), f'{what}: loss {parts[0]}, expected {loss}')
    rest = list(parts[1:])
    if nf:
        close(rest.pop(0), gf, f'{what}: FFE gradient for taps {c["ffe"]}', tol, tol)
    if nd:
        close(rest.pop(0), gd, f'{what}: DFE gradient for taps {c["dfe"]}', tol, tol)


def args(c, ref):
    kw = {}
    if c['ffe'] or not c['omit']:
        kw['ffe_tap_idx'] = np.array(c['ffe'], dtype=int)
    if c['dfe'] or not c['omit']:
        kw['dfe_tap_idx'] = np.array(c['dfe'], dtype=int)
    if ref is not None:
        kw['reference_vec'] = ref.copy()
    return kw


def check_hard(c):
    lev, x, out, ref, given = data(c)
    e = out - ref
    gf, gd = grads(c, x, ref, e)
    got = call(cdsp.rx.ddlms_grad, g.lay(x, c['lay']), g.lay(out, c['lay']), lev.copy(), **args(c, given))
    judge(c, got, float(np.mean(e ** 2)), gf, gd, f"ddlms_grad n={c['n']} refs={c['refs']}", 1e-9)


def check_soft(c):
    lev, x, out, ref, given = data(c)
    s = 1.0 if c['sigma'] is None else c['sigma']
    if c['lev'] == 'adc':               # converter codes: a deviation in proportion
        c = dict(c, sigma=40 * s)
        s = c['sigma']
    d = out[None, :] - lev[:, None]
    ex = np.exp(-d ** 2 / (2 * s * s))
    f = ex.sum(axis=0) / len(lev) / np.sqrt(2 * np.pi * s * s)
    e = (d / s ** 2 * ex).sum(axis=0) / f
    gf, gd = grads(c, x, ref, e)
    kw = args(c, given)
    if c['sigma'] is not None:
        kw['sigma'] = c['sigma']
    got = call(cdsp.rx.soft_ddlms_grad, g.lay(x, c['lay']), g.lay(out, c['lay']), lev.copy(), **kw)
    judge(c, got, float(-np.mean(np.log(f))), gf, gd, f"soft_ddlms_grad n={c['n']} sigma={s}", 1e-7)


def gen_desc(draw):
    return dict(n=g.pick(draw, 400, 800), xseed=g.seed(draw), pre=g.i(draw, 0, 2), post=g.i(draw, 0, 3), nd=g.i(draw, 0, 3), kind=g.pick(draw, 'hard', 'hard', 'soft'))


def check_desc(c):
    """Following the gradients lowers the error of an actual FFE-DFE: direction and tap pairing are right."""
    r = np.random.default_rng(c['xseed'])
    n, nf = c['n'], c['pre'] + c['post'] + 1
    sent = r.choice([-3., -1., 1., 3.], n)
    lev = np.array([-3., -1, 1, 3])
    x = np.convolve(sent, np.concatenate([[1.0], r.uniform(-0.25, 0.25, 2)]))[:n]
    f = r.uniform(-0.08, 0.08, nf)
    f[c['pre']] += 1
    d = r.uniform(-0.08, 0.08, c['nd'])

    def run(f, d):
        o = np.zeros(n)
        for k in range(nf):
            o += f[k] * np.roll(x, k - c['pre'])
        for j in range(c['nd']):
            o -= d[j] * np.roll(sent, j + 1)
        return o
    fi, di = np.arange(-c['pre'], c['post'] + 1), np.arange(1, c['nd'] + 1)
    fn = cdsp.rx.ddlms_grad if c['kind'] == 'hard' else cdsp.rx.soft_ddlms_grad
    kw = dict(ffe_tap_idx=fi, reference_vec=sent)
    if c['nd']:
        kw['dfe_tap_idx'] = di
    loss = lambda o: float(np.mean((o - sent) ** 2)) if c['kind'] == 'hard' else float(-np.mean(np.log(np.exp(-(o[None, :] - lev[:, None]) ** 2 / 2).sum(axis=0))))
    res = call(fn, x.copy(), run(f, d), lev, **kw)
    gf, gd = np.asarray(res[1]), np.asarray(res[2]) if c['nd'] else np.zeros(0)
    step = 1e-3 / (1 + np.abs(np.concatenate([gf, gd])).max())
    base = loss(run(f, d))
    slope = float(gf @ gf + gd @ gd)
    if slope < 1e-4:
        return
    new = loss(run(f - step * gf, d - step * gd))
    expect(new < base, f"a step against the {c['kind']} gradients raises the loss from {base} to {new}")


def enum_long():
    return [dict(soft=s, n=1050000, lev=l, xseed=5, ffe=[-2, 0, 3], dfe=[1, 4], refs=None, sd=0.2, sigma=None, omit=False, lay='c', far=False) for s, l in ((False, 'PAM4'), (True, 'PAM4'), (False, 'adc'))]


def check_long(c):
    (check_soft if c['soft'] else check_hard)(c)


PROP = Prop('C22', [
    Sub('very_long', None, check_long, 0, 0, enum=enum_long, rule='more than a million samples'),
    Sub('hard', gen_lms, check_hard, 6000, 60000, nontrivial=lambda c: c['ffe'] or c['dfe'], big=48, rule='MSE and gradients, any tap indices, own decisions or a given reference'),
    Sub('soft', gen_lms, check_soft, 6000, 60000, nontrivial=lambda c: c['ffe'] or c['dfe'], big=48, rule='Gaussian-mixture loss and gradients'),
    Sub('descent', gen_desc, check_desc, 500, 6000, rule='stepping against the gradients lowers the loss of an explicit FFE-DFE'),
], rule='equalizer inputs/outputs, levels, tap index sets (pre- and post-cursor, absent), reference given / decided / wrong, sigma drawn; oracle: the documented sums '
        'over all sample pairs inside the vectors, and descent of the true loss. Non-trivial: at least one gradient requested.',
    assumptions=['tap indices smaller than the vector length; outputs within about 17 sigma of the levels for the soft version'])
