"""C21 equalizer estimation returns the least-squares FFE/DFE, correctly positioned, scaled and regularised."""
import numpy as np
import CommDspy as cdsp
from vf.core import Prop, Sub, call, same, close, expect, fail
from vf import gen as g
from props.c03 import con
from props.c20 import gen_link, link, lock, ref_pattern, enum_links


def system(s, r, post, pre, nd, rows):
    """Row t: FFE tap k sees s[t + post + pre - k]; DFE tap j sees -r[t - 1 - j]; target r[t]."""
    L = post + pre + 1
    A = np.zeros((rows, L + nd))
    y = np.zeros(rows)
    t = np.arange(rows) + nd
    for k in range(L):
        A[:, k] = s[t + L - 1 - k]
    for j in range(nd):
        A[:, L + j] = -r[t - 1 - j]
    y[:] = r[t]
    return A, y


def solve(A, y, reg, lam):
    if reg == 'ridge' and lam > 0:
        return np.linalg.solve(A.T @ A + lam * np.eye(A.shape[1]), A.T @ y)
    return np.linalg.lstsq(A, y, rcond=None)[0]


def judge(out, s, r, post, pre, nd, norm, reg, lam, what):
    expect(isinstance(out, tuple) and len(out) == 5, f'{what}: expected (ffe, dfe, gain, ls error, mse)')
    ffe, dfe, gain, ls_err, mse = out
    L = post + pre + 1
    ffe = np.asarray(ffe, float)
    expect(ffe.shape == (L,), f'{what}: {ffe.shape} FFE taps, expected {L}')
    if nd:
        expect(np.shape(dfe) == (nd,), f'{what}: DFE taps {np.shape(dfe)}, expected {nd}')
    else:
        expect(dfe is None, f'{what}: DFE taps without a DFE: {dfe}')
    gain = float(gain)
    if reg == 'lasso':
        return judge_lasso(ffe, dfe, gain, ls_err, mse, s, r, post, pre, nd, norm, lam, what)
    if norm:
        expect(abs(np.max(np.abs(ffe)) - 1) <= 1e-9 and np.min(np.abs(ffe - 1)) <= 1e-9, f'{what}: normalised FFE {ffe} has a peak other than 1')
    else:
        expect(gain == 1, f'{what}: gain {gain} reported without normalisation')
    full = np.concatenate([ffe, np.asarray(dfe, float) if nd else []]) * gain
    msgs = []
    for extra in (0, 1):        # the last complete row may or may not be used
        rows = len(s) - (nd + L) + extra
        A, y = system(s, r, post, pre, nd, rows)
        sv = np.linalg.svd(A, compute_uv=False)
        if len(sv) < A.shape[1] or rows < A.shape[1] or sv[-1] <= 1e-5 * sv[0]:
            return None         # under-determined: no unique answer to compare with
        want = solve(A, y, reg, lam)
        tol = 1e-6 * (np.abs(want).max() + 1)
        if np.all(np.abs(full - want) <= tol):
            e = A @ want - y
            ssr = float(e @ e)
            z = np.ravel(ls_err)
            sc = float(y @ y)
            expect(z.size == 0 or abs(float(z[0]) - ssr) <= 1e-6 * ssr + 1e-9 * sc, f'{what}: reported squared error {ls_err}, residual {ssr}')
            if ssr > 1e-9 * sc:
                m = 10 * np.log10(ssr / float(np.sum((A @ want) ** 2)))
                expect(abs(float(mse) - m) <= 1e-4, f'{what}: MSE {mse} dB, expected {m} dB')
            else:
                expect(float(mse) < -80, f'{what}: MSE {mse} dB for an exact fit')
            return want
        msgs.append(want)
    fail(f'{what}: taps {np.round(full, 6)} are not the {"ridge " if reg == "ridge" else ""}least-squares taps {np.round(msgs[0], 6)}')


def judge_lasso(ffe, dfe, gain, ls_err, mse, s, r, post, pre, nd, norm, lam, what):
    L = post + pre + 1
    for extra in (0, 1):
        rows = len(s) - (nd + L) + extra
        A, y = system(s, r, post, pre, nd, rows)
        sv = np.linalg.svd(A, compute_uv=False)
        if rows < 2 * A.shape[1] or sv[-1] <= 0.05 * sv[0]:
            return None
        if min(np.abs(lasso_opt(A, y, l2)[:L]).max() for l2 in (lam, 2 * rows * lam)) < 0.05 / max(1e-9, np.abs(s).max()):
            return None         # the penalty leaves no feed-forward tap to speak of
        full = np.concatenate([ffe, np.asarray(dfe, float) if nd else []]) * gain
        if lasso_fit(A, y, lam, full) is not None:
            if norm:
                expect(abs(np.max(np.abs(ffe)) - 1) <= 1e-9 and np.min(np.abs(ffe - 1)) <= 1e-9, f'{what}: normalised FFE {ffe} has a peak other than 1')
            else:
                expect(gain == 1, f'{what}: gain {gain} reported without normalisation')
            ssrs = []
            for e2 in (0, 1):       # a loose optimum does not tell whether the last row was used
                A, y = system(s, r, post, pre, nd, rows - extra + e2)
                ssrs.append((float(np.sum((A @ full - y) ** 2)), float(np.sum((A @ full) ** 2))))
            sc = float(y @ y)
            z = np.ravel(ls_err)
            expect(z.size == 0 or any(abs(float(z[0]) - a) <= 1e-6 * a + 1e-9 * sc for a, _ in ssrs), f'{what}: reported squared error {ls_err}, residual {ssrs[0][0]}')
            expect(any(a <= 1e-9 * sc or abs(float(mse) - 10 * np.log10(a / b_)) <= 1e-4 for a, b_ in ssrs), f'{what}: MSE {mse} dB, expected {10 * np.log10(ssrs[0][0] / ssrs[0][1])} dB')
            return full
    fail(f'{what}: taps {np.round(full, 6)} do not minimise the squared error plus the L1 penalty')


def opts(draw):
    post, pre, nd = g.i(draw, 0, 6), g.i(draw, 0, 4), g.pick(draw, 0, 0, 1, 2, 4, 7)
    if g.large():
        post, pre, nd = g.i(draw, 0, 25), g.i(draw, 0, 12), g.pick(draw, 0, 1, 9, 12, 20)
    if g.i(draw, 0, 15) == 0:
        post, pre, nd = 23, g.pick(draw, 4, pre), g.pick(draw, 0, nd)     # the documented defaults
    reg = g.pick(draw, None, None, None, 'None', 'ridge', 'ridge', 'ridge', 'lasso')
    if reg == 'lasso' and g.large():
        reg = 'ridge'
    lam = g.pick(draw, 0, 1e-4, 0.003, 0.01, 0.1, 1.0, 30.0) if reg in ('None', 'ridge') else g.pick(draw, 1e-3, 0.01, 0.05, 0.2) if reg else 0
    return dict(fpost=post, pre_n=pre, nd=nd, norm=g.b(draw), reg=reg, lam=lam)


def kwargs(c):
    kw = dict(ffe_postcursor=c['fpost'], ffe_precursor=c['pre_n'], dfe_taps=c['nd'], normalize=c['norm'])
    if c['reg']:
        kw.update(regularization=c['reg'], reg_lambda=c['lam'])
    return kw


def gen_eq(draw):
    c = opts(draw)
    need = c['fpost'] + c['pre_n'] + 1 + c['nd']
    c.update(n=2 * need + 3 + g.size(draw, 0, 200, big=8000), sseed=g.seed(draw), kind=g.pick(draw, 'channel', 'channel', 'random', 'dfe'), noise=g.pick(draw, 0.0, 0.01, 0.2), sc=g.pick(draw, 1.0, 1.0, 0.05, 10.0), lev=g.pick(draw, 2, 4), lay=g.layout(draw), iref=g.b(draw))
    return c


def check_eq(c):
    r_ = np.random.default_rng(c['sseed'])
    n = c['n']
    ref = r_.choice([-1., 1.], n) if c['lev'] == 2 else r_.choice([-3., -1, 1, 3], n)
    h = np.concatenate([[1.0], r_.uniform(-0.3, 0.3, 3)])
    if c['kind'] == 'random':
        s = r_.normal(size=n)
    elif c['kind'] == 'dfe':        # pure post-cursor ISI: undone exactly by a DFE
        s = np.convolve(ref, h)[:n]
    else:
        s = np.convolve(ref, h)[:n] * 0.7
    s = (s + r_.normal(size=n) * c['noise']) * c['sc']
    what = f"equalization_estimation {kwargs(c)} on {n} samples"
    if c.get('iref'):
        ref = ref.astype(int)
    out = call(cdsp.equalization_estimation, g.lay(ref, c['lay']), g.lay(s, c['lay']), **kwargs(c))
    judge(out, s, ref, c['fpost'], c['pre_n'], c['nd'], c['norm'], c['reg'], c['lam'], what)


def gen_prbs(draw):
    c = gen_link(draw, orders=(7, 7, 7, 9), cons=('NRZ', 'OOK', 'PAM4', 'PAM4'))
    c.update(opts(draw))
    P = 2 ** c['order'] - 1
    if g.i(draw, 0, 4) == 0:
        c['reps'], c['extra'] = 0, g.i(draw, 60, P - 1)
    c.update(kwdef=g.b(draw))
    return c


def enum_long():
    return [dict(c, fpost=6, pre_n=3, nd=(0, 3)[j % 2], norm=j % 3 == 0, reg=(None, 'ridge')[j % 4 == 3], lam=(0, 30.0)[j % 4 == 3], kwdef=False) for j, c in enumerate(enum_links())]


def enum_long_eq():
    return [dict(fpost=6, pre_n=3, nd=nd, norm=norm, reg=None, lam=0, n=n, sseed=n, kind='channel', noise=0.1, sc=1.0, lev=4, lay='c', iref=norm) for n, nd, norm in ((70001, 3, True), (300000, 0, False))]


def check_prbs(c):
    y, a, h = link(c)
    P = len(a)
    k = lock(a, y, P if c['cons'] == 'PAM4' else 2 * P)
    if k is None or (k != 0 and c['reps'] > 0):
        return
    a = np.roll(a, -k)
    r = np.roll(a, -c['fpost'])
    s = np.mean(y[:c['reps'] * P].reshape(-1, P), axis=0) if c['reps'] else y
    r = r[:len(s)]
    kw = dict(kwargs(c), prbs_full_scale=c['fs'], bit_order_inv=c['bo'], pn_inv_precoding=c['ip'], gray_coded=c['gray'], pn_inv_postmapping=c['io'])
    if c['kwdef'] and c['gray']:
        del kw['gray_coded']
    what = f"equalization_estimation_prbs PRBS{c['order']} {c['cons']} {kw} reps={c['reps']}+{c['extra']}"
    out = call(cdsp.equalization_estimation_prbs, cdsp.PrbsEnum(c['order']), y.copy(), con(c['cons']), **kw)
    judge(out, s, r, c['fpost'], c['pre_n'], c['nd'], c['norm'], c['reg'], c['lam'], what)


def gen_exact(draw):
    c = gen_link(draw, orders=(7, 9), cons=('NRZ', 'PAM4', 'PAM4', 'OOK'))
    c.update(pre=[], noise=0.0, post_n=g.i(draw, 0, 4), pre_n=g.i(draw, 0, 3), norm=g.b(draw))
    c['reps'] = max(1, c['reps'])
    return c


def check_exact(c):
    """Post-cursor ISI: the DFE equals the ISI and the FFE is one tap 1/gain at the cursor position."""
    y, a, h = link(c)
    P = len(a)
    if lock(a, y, P if c['cons'] == 'PAM4' else 2 * P) != 0 or not c['post']:
        return
    nd = len(c['post'])
    kw = dict(ffe_postcursor=c['post_n'], ffe_precursor=c['pre_n'], dfe_taps=nd, normalize=c['norm'], prbs_full_scale=c['fs'], bit_order_inv=c['bo'], pn_inv_precoding=c['ip'],
              gray_coded=c['gray'], pn_inv_postmapping=c['io'])
    ffe, dfe, gain, err, mse = call(cdsp.equalization_estimation_prbs, cdsp.PrbsEnum(c['order']), y.copy(), con(c['cons']), **kw)
    what = f"equalization_estimation_prbs of post-cursor ISI {c['post']}, {kw}"
    expect(float(mse) < -80, f'{what}: MSE {mse} dB although the equalizer can be exact')
    if c['post_n'] > 0:
        return          # FFE post-cursors can trade against the DFE: not unique
    want = np.zeros(c['pre_n'] + 1)
    want[c['pre_n']] = 1 / c['gain']
    close(np.asarray(ffe) * gain, want, f'{what}: FFE (cursor at index {c["pre_n"]})', 1e-5, 1e-6)
    close(np.asarray(dfe) * gain, np.array(c['post']), f'{what}: DFE taps', 1e-5, 1e-6)


def gen_ls(draw):
    n = g.size(draw, 1, 8, big=50)
    m = n + g.size(draw, 1, 30, big=2000)
    return dict(n=n, m=m, aseed=g.seed(draw), reg=g.pick(draw, 'None', 'ridge', 'ridge', 'lasso', 'lasso'), lam=g.pick(draw, 1e-3, 0.05, 0.2, 0.5, 3.0), scale=g.pick(draw, 1.0, 0.1, 8.0), off=g.pick(draw, 0.0, 2.0))


def lasso_opt(A, y, lam):
    """Minimiser of |y - Aw|^2 + lam |w|_1 by cyclic coordinate descent run to convergence."""
    w = np.zeros(A.shape[1])
    z = np.sum(A * A, axis=0)
    r = y.copy()
    for _ in range(20000):
        big = 0.0
        for j in range(len(w)):
            rho = A[:, j] @ r + z[j] * w[j]
            nw = np.sign(rho) * max(abs(rho) - lam / 2, 0) / z[j]
            if nw != w[j]:
                r += A[:, j] * (w[j] - nw)
                big = max(big, abs(nw - w[j]))
                w[j] = nw
        if big < 1e-13:
            break
    return w


def lasso_fit(A, y, lam, w):
    """Which documented/implemented objective w minimises: 'sum', 'mean' or None."""
    for name, l2 in (('sum', lam), ('mean', 2 * len(y) * lam)):
        o = lasso_opt(A, y, l2)
        f = lambda v: float(np.sum((y - A @ v) ** 2) + l2 * np.abs(v).sum())
        if f(np.asarray(w, float)) <= f(o) * (1 + 2e-3) + 4e-4 * float(y @ y) + 1e-9:     # the solver's duality-gap tolerance
            return name
    return None


def check_ls(c):
    from CommDspy.misc.least_squares import least_squares
    r = np.random.default_rng(c['aseed'])
    A = r.normal(size=(c['m'], c['n'])) * c['scale'] + c['off']
    y = A @ r.normal(size=c['n']) + r.normal(size=c['m']) * 0.3
    sv = np.linalg.svd(A, compute_uv=False)
    if sv[-1] < (0.05 if c['reg'] == 'lasso' else 1e-4) * sv[0]:
        return
    out = call(least_squares, A.copy(), y.copy(), c['reg'], c['lam'])
    w, ssr = np.asarray(out[0]), np.ravel(out[1])
    what = f"least_squares {c['reg']} lambda={c['lam']} on {A.shape}"
    expect(w.shape == (c['n'],), f'{what}: solution shape {w.shape}')
    if c['reg'] == 'lasso':
        expect(lasso_fit(A, y, c['lam'], w) is not None, f'{what}: {w} is not an L1-regularised minimiser')
    else:
        close(w, solve(A, y, c['reg'], c['lam']), what, 1e-6, 1e-6)
        if sv[-1] > 1e-2 * sv[0]:
            import CommDspy.misc.least_squares as ls        # the hand-computed variants, documented as equal to the library's
            name = 'ridge_regression_manual' if c['reg'] == 'ridge' else 'ols_manual'
            if hasattr(ls, name):               # internal by the documentation, so it may go
                mw, ms = call(getattr(ls, name), A.copy(), y.copy(), *([c['lam']] if c['reg'] == 'ridge' else []))
                close(mw, w, f'{name} lambda={c["lam"]} on {A.shape}', 1e-6, 1e-6)
                me = float(np.sum((A @ np.asarray(mw) - y) ** 2))
                expect(abs(float(ms) - me) <= 1e-6 * me + 1e-9, f'{name}: reported residual {ms}, actual {me}')
    e = float(np.sum((A @ w - y) ** 2))
    if ssr.size:
        expect(abs(float(ssr[0]) - e) <= 1e-6 * e + 1e-9, f'{what}: reported residual {ssr[0]}, actual {e}')


def findings():
    from CommDspy.misc.least_squares import least_squares
    r = np.random.default_rng(5)
    A = r.normal(size=(40, 3))
    y = A @ np.array([1.0, -2.0, 0.5])
    w = np.asarray(call(least_squares, A.copy(), y.copy(), 'lasso', 0.2)[0])
    if lasso_fit(A, y, 0.2, w) == 'mean':
        return ["least_squares(A 40x3, y, 'lasso', 0.2): minimises |y-Xw|^2/(2M) + lambda|w|_1 instead of the documented |y-Xw|^2 + lambda|w|_1"]
    return []


PROP = Prop('C21', [
    Sub('long_prbs', None, check_prbs, 0, 0, enum=enum_long, rule='PRBS13 and PRBS15, and thousands of repetitions'),
    Sub('long_reference', None, check_eq, 0, 0, enum=enum_long_eq, rule='hundreds of thousands of samples'),
    Sub('reference', gen_eq, check_eq, 2500, 30000, nontrivial=lambda c: c['nd'] > 0, big=64, rule='equalizer for a known reference: taps, order, gain, residual, MSE, ridge'),
    Sub('prbs', gen_prbs, check_prbs, 1600, 20000, nontrivial=lambda c: c['nd'] > 0, big=48, rule='equalizer for a PRBS: alignment, flags, averaging, partial period'),
    Sub('exact', gen_exact, check_exact, 1000, 12000, nontrivial=lambda c: len(c['post']) > 0, big=24, rule='post-cursor ISI is inverted exactly'),
    Sub('least_squares', gen_ls, check_ls, 1200, 12000, big=24, rule='OLS, ridge and lasso minimise their objective'),
], rule='reference patterns, channels, noise, numbers of FFE pre/post cursors and DFE taps (also more DFE taps than post-cursors), normalisation, regularisation '
        'and all PRBS pattern flags drawn; oracle: an independently indexed least-squares system solved with numpy, and exact inverses of known channels. '
        'Non-trivial: a DFE is estimated.',
    assumptions=['well-conditioned problems only (others have no unique answer)', 'lasso: either normalisation of the objective is accepted (known finding)'], findings=findings)
