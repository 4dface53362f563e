"""C25 calls leave their arguments alone and do not remember each other."""
import copy
import importlib
import numpy as np
import CommDspy as cdsp
from vf.core import Prop, Sub, call, same, close, expect, fail, Violation
from vf import fresh, gen as g
from props.c03 import con, LEVELS, ref_levels

for _m in ('psa', 'misc.help_classes', 'misc.least_squares'):      # imported up front: a fresh process should not pay for it
    try:
        importlib.import_module('CommDspy.' + _m)
    except ImportError:
        pass

OPS = {}


def op(f):
    OPS[f.__name__] = f
    return f


def bits(r, lo=4, hi=60):
    return r.integers(0, 2, int(r.integers(lo, hi)))


def flags4(r):
    return dict(zip(('bit_order_inv', 'inv_msb', 'inv_lsb', 'pn_inv'), [bool(v) for v in r.integers(0, 2, 4)]))


def taps(r, n):
    return np.round(r.normal(size=n) * 0.4, 3)


def anycon(r, names=('NRZ', 'OOK', 'PAM3', 'PAM4')):
    return names[int(r.integers(len(names)))]


G1 = [[1, 1, 1], [1, 0, 1]]


def conv_args(r):
    k = int(r.integers(4))
    if k == 0:
        return {0: np.array(G1)}, None, None
    if k == 3:
        G = r.integers(0, 2, (2, 3))
        G[:, 0] = 1
        return {0: G}, None, None
    if k == 1:
        return {0: np.array([[1, 0], [0, 1]])}, {0: np.array([1, 1])}, np.array([[0, 1]])
    return {0: np.array([[1, 0], [0, 0], [1, 1]]), 1: np.array([[0, 0, 0], [1, 0, 0], [0, 0, 1]])}, None, None


@op
def prbs_gen(r):
    e = cdsp.PrbsEnum(int(r.choice([7, 9, 11, 13, 15, 31])))
    p = cdsp.get_polynomial(e)
    s = r.integers(0, 2, len(p))
    s[0] = 1
    return cdsp.tx.prbs_gen, (p, s, int(r.integers(1, 80))), {}


@op
def prbs_iterator(r):
    e = cdsp.PrbsEnum(int(r.choice([7, 9, 11])))
    p = cdsp.get_polynomial(e)
    s = r.integers(0, 2, len(p))
    n = int(r.integers(1, 30))

    def run(poly, seed):
        it = iter(cdsp.tx.PrbsIterator(poly, seed))
        return np.array([next(it) for _ in range(n)]), it.get_seed(), it.get_prev_seed()
    return run, (p, s), {}


@op
def bin2symbol(r):
    return cdsp.tx.bin2symbol, (bits(r), int(r.choice([2, 4, 8]))), flags4(r)


@op
def symbol2bin(r):
    m = int(r.choice([2, 4, 8]))
    return cdsp.rx.symbol2bin, (r.integers(0, m, 20), m), flags4(r)


def _sym(name):
    def f(r):
        k = anycon(r, ('NRZ', 'OOK', 'PAM4') if 'gray' in name else ('NRZ', 'OOK', 'PAM3', 'PAM4'))
        fn = getattr(cdsp.tx, name, None) or getattr(cdsp.rx, name)
        x = r.integers(0, len(LEVELS[k]), 24)
        return fn, (x.reshape(4, 6) if r.integers(2) else x, con(k)), {}
    f.__name__ = name
    op(f)


for _n in ('coding_gray', 'coding_differential', 'decoding_gray', 'decoding_differential'):
    _sym(_n)


def _line(name):
    def f(r):
        fn = getattr(cdsp.tx, name, None) or getattr(cdsp.rx, name)
        m = 3 if name in ('decoding_bipolar', 'decoding_mlt3') else 2
        x = r.integers(0, m, 24)
        return fn, (x.reshape(2, 12) if r.integers(2) else x,), (dict(error_detection=bool(r.integers(2))) if name == 'decoding_bipolar' else {})
    f.__name__ = name
    op(f)


for _n in ('coding_manchester', 'coding_bipolar', 'coding_mlt3', 'coding_differential_manchester', 'decoding_manchester', 'decoding_bipolar', 'decoding_mlt3', 'decoding_differential_manchester'):
    _line(_n)


@op
def coding_linear(r):
    return cdsp.tx.coding_linear, (bits(r), r.integers(0, 2, (3, 6))), {}


@op
def decoding_linear(r):
    return cdsp.rx.decoding_linear, (bits(r, 6, 60), np.concatenate([np.eye(3, dtype=int), r.integers(0, 2, (3, 3))], axis=1)), dict(error_prob=bool(r.integers(2)))


@op
def coding_conv(r):
    G, fb, uf = conv_args(r)
    return cdsp.tx.coding_conv, (bits(r), G), dict(feedback=fb, use_feedback=uf)


@op
def decoding_conv_viterbi(r):
    G, fb, uf = conv_args(r)
    no = G[0].shape[0]
    return cdsp.rx.decoding_conv_viterbi, (bits(r, 6 * no, 60), G, 6 * no), dict(feedback=fb, use_feedback=uf, error_prob=bool(r.integers(2)))


@op
def decoding_conv_ml(r):
    G, fb, uf = conv_args(r)
    no = G[0].shape[0]
    return cdsp.rx.decoding_conv_ml, (bits(r, 2 * no, 40), G, 2 * no), dict(feedback=fb, use_feedback=uf, error_prob=bool(r.integers(2)))


@op
def mapping(r):
    k = anycon(r)
    kw = dict(full_scale=bool(r.integers(2)), pn_inv=bool(r.integers(2)))
    if r.integers(2):
        kw['levels'] = np.sort(r.normal(size=len(LEVELS[k])))
    return cdsp.tx.mapping, (r.integers(0, len(LEVELS[k]), 20), con(k)), kw


@op
def demapping(r):
    k = anycon(r)
    fs, pn = bool(r.integers(2)), bool(r.integers(2))
    x = ref_levels(k, fs)[r.integers(0, len(LEVELS[k]), 20)] * (-1 if pn else 1) + r.uniform(-0.1, 0.1, 20)
    return cdsp.rx.demapping, (x.reshape(4, 5) if r.integers(2) else x, con(k)), dict(full_scale=fs, pn_inv=pn)


@op
def slicer(r):
    x = r.normal(size=20) * 3
    lv = [None, np.array([-1.0, 1]), np.array([3, -3, 1, -1])][int(r.integers(3))]
    return cdsp.rx.slicer, (x.reshape(4, 5) if r.integers(2) else x,), ({} if lv is None else dict(levels=np.sort(lv)))


@op
def quantize(r):
    return cdsp.rx.quantize, (r.normal(size=30) * 4, int(r.integers(2, 7)), int(r.integers(-1, 4)), str(r.choice(['u', 's', 'ss']))), {}


@op
def lock_pattern_to_signal(r):
    p = r.normal(size=15)
    return cdsp.rx.lock_pattern_to_signal, (p, np.roll(np.tile(p, 3), 4)), {}


@op
def lock_pattern_to_signal_binary(r):
    p = r.integers(0, 2, 31)
    return cdsp.rx.lock_pattern_to_signal_binary, (p, np.roll(np.tile(p, 2), 7)), {}


@op
def prbs_checker(r):
    x = bits(r, 40, 200)
    kw = dict(loss_th=int(r.integers(1, 60)))
    if r.integers(2):
        kw['prbs_seq'] = r.integers(0, 2, 127)
    return cdsp.rx.prbs_checker, (cdsp.PrbsEnum.PRBS7, x, bool(r.integers(2))), kw


@op
def prbs_checker_econ(r):
    return cdsp.rx.prbs_checker_econ, (cdsp.PrbsEnum.PRBS7, bits(r, 40, 100)), dict(loss_th=int(r.integers(1, 60)))


@op
def ctle(r):
    z, p = [1e9 * r.uniform(0.3, 1)], [2e9 * r.uniform(0.3, 1), 3e9]
    kw = dict(zi=r.normal(size=2)) if r.integers(2) else {}
    return cdsp.rx.ctle, (r.normal(size=40), np.array(z) if r.integers(2) else z, p, -3.0, 10e9, 4), kw


@op
def get_ctle_filter(r):
    return cdsp.rx.get_ctle_filter, (np.array([1e9 * r.uniform(0.3, 1)]), np.array([2e9, 3e9]), -3.0, 10e9, 4), {}


@op
def ffe_dfe(r):
    kw = {}
    L = int(r.integers(1, 6))
    if r.integers(3):
        kw['ffe_taps'] = taps(r, L)
    else:
        L = 1
    if r.integers(3):
        n = int(r.integers(1, 4))
        kw['dfe_taps'] = taps(r, n)
        if r.integers(2):
            kw['zi_dfe'] = r.choice([-3.0, -1, 1, 3], n)
        if r.integers(2):
            kw.update(osr=2, phase=int(r.integers(2)))
        if r.integers(2):
            kw['levels'] = np.array([-1.0, 0.0, 1.0])
    if r.integers(2) and L > 1:
        kw['zi_ffe'] = r.normal(size=L - int(r.integers(2)))
    return cdsp.rx.ffe_dfe, (r.normal(size=30) * 2,), kw


def _lms(name):
    def f(r):
        x, y = r.normal(size=40), r.normal(size=40)
        kw = dict(ffe_tap_idx=np.arange(-1, int(r.integers(0, 4))), dfe_tap_idx=np.arange(1, int(r.integers(1, 4))))
        if r.integers(2):
            kw['reference_vec'] = r.choice([-3.0, -1, 1, 3], 40)
        if name == 'soft_ddlms_grad':
            kw['sigma'] = float(r.uniform(0.3, 2))
        return getattr(cdsp.rx, name), (x, y, np.array([-3.0, -1, 1, 3])), kw
    f.__name__ = name
    op(f)


_lms('ddlms_grad')
_lms('soft_ddlms_grad')


@op
def mueller_muller_step(r):
    x = r.normal(size=40)
    return cdsp.rx.mueller_muller_step, (x, r.choice([-3.0, -1, 1, 3], 40)), {}


@op
def pulse_shape(r):
    osr, span = int(r.integers(1, 5)), int(r.integers(1, 4))
    kw = dict(osr=osr, span=span, pulse=str(r.choice(['rect', 'sinc', 'rcos', 'rrc', 'imp'])), beta=0.3)
    if r.integers(2):
        kw['zi'] = r.normal(size=2 * osr * span - 1)
    return cdsp.channel.pulse_shape, (r.normal(size=20),), kw


@op
def pulses(r):
    k = int(r.integers(4))
    t = r.normal(size=12)
    t[3] = 0.0
    fn = (cdsp.channel.rect_pulse, cdsp.channel.sinc_pulse, cdsp.channel.rcos_pulse, cdsp.channel.rrc_pulse)[k]
    return fn, (4, 2) + ((0.25,) if k > 1 else ()), dict(t=t) if r.integers(2) else {}


@op
def awgn_channel(r):
    b_ = taps(r, 4)
    a = [1, 1.0, [1.0, 0.2], np.array([2.0, 0.3])][int(r.integers(4))]
    kw = dict(zi=r.normal(size=3)) if r.integers(2) else {}
    return cdsp.channel.awgn_channel, (r.normal(size=30), b_ if r.integers(2) else list(b_), a), kw


@op
def channel_estimation_prbs(r):
    e = cdsp.PrbsEnum.PRBS7
    s = call(cdsp.tx.prbs_gen, cdsp.get_polynomial(e), np.ones(7, int), 254)[0]
    y = np.convolve(2.0 * np.asarray(s) - 1, [0.1, 1, 0.3])[:254]
    return cdsp.channel_estimation_prbs, (e, y, con('NRZ')), dict(channel_postcursor=4, channel_precursor=2, normalize=bool(r.integers(2)))


@op
def equalization_estimation_prbs(r):
    e = cdsp.PrbsEnum.PRBS7
    s = call(cdsp.tx.prbs_gen, cdsp.get_polynomial(e), np.ones(7, int), 254)[0]
    y = np.convolve(2.0 * np.asarray(s) - 1, [0.1, 1, 0.3])[:254]
    return cdsp.equalization_estimation_prbs, (e, y, con('NRZ')), dict(ffe_postcursor=3, ffe_precursor=2, dfe_taps=int(r.integers(0, 3)), normalize=bool(r.integers(2)))


@op
def equalization_estimation(r):
    x = r.choice([-1.0, 1.0], 60)
    reg = str(r.choice(['None', 'ridge', 'lasso']))
    return cdsp.equalization_estimation, (x, x + 0.3 * np.roll(x, 1) + 0.05 * r.normal(size=60), 3, 2, int(r.integers(0, 3)), bool(r.integers(2)), reg, 0.1), {}


@op
def dig_delay(r):
    fn = (cdsp.dig_delay_lagrange_coeffs, cdsp.dig_delay_sinc_coeffs)[int(r.integers(2))]
    return fn, (int(r.integers(1, 8)), float(r.uniform(0, 1))), dict(forward=bool(r.integers(2)))


@op
def digital_oversample(r):
    return cdsp.digital_oversample, (r.normal(size=30), int(r.integers(2, 5)), int(r.integers(1, 6)), str(r.choice(['lagrange', 'sinc', 'rcos']))), dict(beta=0.4)


@op
def eye_diagram(r):
    return cdsp.eye_diagram, (r.normal(size=320), 4, 16), dict(quantization=64, logscale=bool(r.integers(2)))


@op
def psa(r):
    from CommDspy.psa import psa as f
    x = r.normal(size=400)
    return f, (x.reshape(2, -1) if r.integers(2) else x, 1.0), dict(rbw=0.05, mode=str(r.choice(['dB', 'dBm', 'dBc', 'dBFs'])))


@op
def aux(r):
    k = int(r.integers(9))
    x = r.normal(size=24)
    x = x.reshape(4, 6) if r.integers(2) and k < 2 else x
    return [(cdsp.power, (x,), {}), (cdsp.rms, (x,), {}), (cdsp.buffer, (x, 5), dict(overlap=int(r.integers(0, 4)), delay=int(r.integers(0, 3)), clip=bool(r.integers(2)))),
            (cdsp.upsample, (x, int(r.integers(1, 4))), {}), (cdsp.zoh, (x, int(r.integers(1, 4))), {}), (cdsp.hamming, (r.integers(0, 2, (4, 5)), r.integers(0, 2, (3, 5))), {}),
            (cdsp.bin2uint, (r.integers(0, 2, (4, 5)),), {}), (cdsp.uint2bin, (r.integers(0, 32, 6), 5), {}), (cdsp.get_bin_perm, (int(r.integers(1, 5)),), {})][k]


@op
def tables(r):
    k = int(r.integers(3))
    return [(cdsp.get_levels, (con(anycon(r)),), dict(full_scale=bool(r.integers(2)))), (cdsp.get_polynomial, (cdsp.PrbsEnum(int(r.choice([7, 9, 11, 13, 15, 31]))),), {}),
            (cdsp.get_gray_level_vec, (int(r.integers(2, 9)),), {})][k]


@op
def filters(r):
    from CommDspy.misc import help_classes as h
    b_, a, x = taps(r, 3), np.array([1.0, 0.3, 0.1]), r.normal(size=20)
    k = int(r.integers(3))
    z = r.normal(size=2)

    def run(b1, a1, z1, x1):
        f = [lambda: h.Filter(b1, a1, np.concatenate([z1, [0]]), z1), lambda: h.FilterTII(b1, a1, z1), lambda: h.FfeDfeFilterTII(b1, a1, np.array([-1.0, 1]), z1)][k]()
        return f(x1[:9]), f(x1[9:])
    return run, (b_, a, z, x), {}


@op
def least_squares(r):
    from CommDspy.misc.least_squares import least_squares as f
    return f, (r.normal(size=(20, 3)), r.normal(size=20), str(r.choice(['None', 'ridge', 'lasso'])), 0.2), {}


NAMES = sorted(OPS)


def arrays(x):
    if isinstance(x, np.ndarray):
        yield x
    elif isinstance(x, dict):
        for v in x.values():
            yield from arrays(v)
    elif isinstance(x, (list, tuple)):
        for v in x:
            yield from arrays(v)


def equal(a, b_):
    if isinstance(a, np.ndarray) or isinstance(b_, np.ndarray):
        a, b_ = np.asarray(a), np.asarray(b_)
        return a.shape == b_.shape and a.dtype == b_.dtype and bool(np.all((a == b_) | ((a != a) & (b_ != b_))))
    if isinstance(a, dict):
        return isinstance(b_, dict) and list(a) == list(b_) and all(equal(a[k], b_[k]) for k in a)
    if isinstance(a, (list, tuple)):
        return type(a) is type(b_) and len(a) == len(b_) and all(equal(u, v) for u, v in zip(a, b_))
    return type(a) is type(b_) and (a == b_ or a != a)


def approx(a, b_):
    if isinstance(a, (tuple, list)):
        return isinstance(b_, (tuple, list)) and len(a) == len(b_) and all(approx(u, v) for u, v in zip(a, b_))
    if a is None or b_ is None:
        return a is b_
    a, b_ = np.asarray(a), np.asarray(b_)
    if a.shape != b_.shape:
        return False
    if a.dtype.kind == 'b' or b_.dtype.kind == 'b':
        return bool(np.all(a == b_))
    with np.errstate(all='ignore'):
        return bool(np.all((np.abs(a - b_) <= 1e-7 * (1 + np.abs(a))) | ((a != a) & (b_ != b_)) | (a == b_)))


def flip(x, axis):
    """The same structure with every array reversed: other content, same sizes, types and sums."""
    if isinstance(x, np.ndarray):
        return np.ascontiguousarray(np.flip(x, axis if x.ndim else None))
    if isinstance(x, dict):
        return {k: flip(v, axis) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return type(x)(flip(v, axis) for v in x)
    return x


def build(o):
    fn, a, k = OPS[o['fn']](np.random.default_rng(o['s']))
    if o.get('tw') is not None:
        a, k = flip(a, o['tw']), flip(k, o['tw'])
    return fn, a, k


def gen_ops(draw, n):
    ops = []
    for _ in range(n):
        kind = g.i(draw, 0, 3) if ops else 0
        if kind <= 1:
            ops.append(dict(fn=g.pick(draw, *NAMES), s=g.i(draw, 0, 10 ** 6)))
        elif kind == 2:         # the same function with other arguments
            ops.append(dict(fn=g.pick(draw, *ops)['fn'], s=g.i(draw, 0, 10 ** 6)))
        else:                   # the same call with reversed arrays
            ops.append(dict(g.pick(draw, *ops), tw=g.pick(draw, 0, -1)))
    return ops


def gen_seq(draw):
    return dict(ops=gen_ops(draw, g.i(draw, 1, 6)), frozen=g.b(draw), scribble=g.b(draw))


def gen_fresh(draw):
    return dict(ops=gen_ops(draw, g.i(draw, 2, 8)))


def plain(x):
    """A picklable copy of a result."""
    if isinstance(x, (tuple, list)):
        return [plain(v) for v in x]
    if isinstance(x, dict):
        return [[k, plain(v)] for k, v in x.items()]
    return np.array(x) if x is not None else None


def run_plain(ops):
    """All calls in order; what each returned, or that it raised."""
    out = []
    for o in ops:
        try:
            fn, a, k = build(o)
            out.append(('ok', plain(fn(*a, **k))))
        except Exception as e:
            out.append(('raised', type(e).__name__))
    return out


def check_fresh(c):
    fresh.start()
    st, hist = fresh.run(run_plain, c['ops'])
    expect(st == 'ok', f'the history {c["ops"]} ended the process: {hist}')
    for o, got in zip(c['ops'], hist):
        if 'noise' in o['fn']:
            continue
        st, alone = fresh.run(run_plain, [o])
        expect(st == 'ok', f'{o} ended the process: {alone}')
        alone = alone[0]
        expect(got[0] == alone[0] and (approx(got[1], alone[1]) if got[0] == 'ok' else got[1] == alone[1]),
               lambda: f'{o["fn"]} (arguments {str(build(o)[1:])[:300]}) gives {str(got)[:200]} after {[q["fn"] for q in c["ops"]]}, but {str(alone)[:200]} in a fresh process')


class Skip(Exception):
    pass


def run_one(o, frozen):
    fn, a, k = build(o)
    fn2, a2, k2 = build(o)
    if frozen:
        for v in arrays((a, k)):
            v.setflags(write=False)
    what = o['fn'] + f" (arguments {str((a, k))[:200]})"
    before = np.random.get_state()
    try:
        res = fn(*a, **k)
    except Exception as e:
        if frozen:
            try:
                fn2(*copy.deepcopy(a2), **copy.deepcopy(k2))
            except Exception:
                raise Skip()            # fails on any input: another property's matter
            fail(f'{what} raised {type(e).__name__}: {e} for read-only arguments only')
        raise Skip()
    after = np.random.get_state()
    expect(equal(a, a2) and equal(k, k2), f'{what} changed its arguments')
    expect('lasso' in map(str, a) or (before[2] == after[2] and np.array_equal(before[1], after[1])), f'{what} disturbed the global random generator')
    return res, what


def check_seq(c):
    fresh.start()
    try:
        history(c)
    except Skip:
        pass


def history(c):
    first = []
    for o in c['ops']:
        res, what = run_one(o, c['frozen'])
        first.append((copy.deepcopy(res), what))
        if c['scribble']:
            for v in arrays(res):
                if v.flags.writeable and v.size:
                    v[...] = 77 if v.dtype.kind != 'b' else True
    for o, (res, what) in zip(c['ops'], first):
        again, _ = run_one(o, False)
        expect(approx(res, again), lambda: f'{what} gives another result when repeated after {[q["fn"] for q in c["ops"]]}: {str(res)[:150]} then {str(again)[:150]}')


def enum_each():
    return [dict(ops=[dict(fn=n, s=s)], frozen=bool(s % 2), scribble=s % 3 == 0) for n in NAMES for s in range(24)]


PROP = Prop('C25', [
    Sub('history', gen_seq, check_seq, 3000, 60000, enum=enum_each, nontrivial=lambda c: len(c['ops']) > 1, rule='sequences of calls over the whole public interface'),
    Sub('fresh', gen_fresh, check_fresh, 1000, 20000, enum=None, rule='every call of a history gives what it gives as the only call of a fresh process'),
], rule='sequences of calls to all public functions and objects with drawn arguments (arrays optionally read-only, results optionally overwritten by the caller); oracle: '
        'arguments (arrays, lists, dictionaries) compare equal to freshly built ones, the global random state is untouched by deterministic functions, and every call '
        'repeated after the whole history returns the same result; in addition '
        'histories with repeated functions and look-alike arguments (same sizes, reversed content) are run '
        'in a fresh process and every result compared with the same call made alone in another fresh process. Every function is also run alone. Non-trivial: at least two calls.',
    assumptions=['noise generators (C16) are excluded from the repeatability part'])
