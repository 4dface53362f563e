"""C26 inputs the library cannot honour are rejected with an error, and valid neighbours of them are not."""
import numpy as np
import CommDspy as cdsp
from vf.core import Prop, Sub, call, expect, fail
from vf import gen as g
from props.c03 import con, LEVELS
from props.c08 import gen_code, code_args

REJECT = (ValueError,)


def rejects(fn, *a, errors=REJECT, what='', **k):
    try:
        out = fn(*a, **k)
    except errors:
        return
    except Exception as e:
        fail(f'{what}: raised {type(e).__name__}: {e}, expected {errors[0].__name__}')
    fail(f'{what}: accepted, returned {str(out)[:80]}')


def bad_bits(draw, n):
    """A pattern of length n that is not binary; sometimes one stray value, sometimes a whole other alphabet."""
    kind = g.pick(draw, 'stray', 'stray', 'alphabet', 'const')
    if kind == 'const':
        return dict(kind=kind, n=n, v=g.pick(draw, -1, 2, 3, -7, 0.5, 1.5))
    if kind == 'alphabet':
        return dict(kind=kind, n=max(n, 2), v=g.pick(draw, [-1, 1], [0, 2], [1, 2], [-1, 0], [0, 1, 2], [2, 3], [0, 1, 3], [0.0, 0.5], [-1, 0, 1]), s=g.seed(draw))
    return dict(kind=kind, n=n, v=g.pick(draw, -1, 2, 3, 255, 0.5), s=g.seed(draw), at=g.pick(draw, 0, n - 1, n - 1 - g.i(draw, 0, min(n - 1, 40)), g.i(draw, 0, n - 1)))


def make_bits(c):
    if c['kind'] == 'const':
        return np.full(c['n'], c['v'])
    r = np.random.default_rng(c['s'])
    if c['kind'] == 'alphabet':
        x = r.choice(c['v'], c['n'])
        x[:2] = [v for v in c['v'] if v not in (0, 1)][0], [v for v in c['v']][-1]
        if c['n'] >= len(c['v']):
            x[-len(c['v']):] = c['v']
        return x
    x = r.integers(0, 2, c['n']).astype(type(c['v']))
    x[c['at']] = c['v']
    return x


CODERS = ('coding_manchester', 'coding_bipolar', 'coding_mlt3', 'coding_differential_manchester', 'decoding_manchester', 'decoding_differential_manchester',
          'coding_linear', 'decoding_linear', 'coding_conv', 'decoding_conv_ml', 'decoding_conv_viterbi')


def gen_bin(draw):
    fn = g.pick(draw, *CODERS)
    n = g.size(draw, 2, 120, big=120000)
    if 'manchester' in fn and fn.startswith('dec'):
        n += n % 2
    where = 'pattern' if not fn.endswith(('linear', 'ml', 'viterbi', '_conv')) else g.pick(draw, 'pattern', 'pattern', 'G')
    return dict(fn=fn, bad=bad_bits(draw, n if where == 'pattern' else 4), where=where, n=n, s=g.seed(draw), shape=g.pick(draw, False, False, True))


def args_for(fn, bits, G2):
    if fn.endswith('linear'):
        return (bits, G2)
    if fn == 'coding_conv':
        return (bits, {0: G2})
    if fn.startswith('decoding_conv'):
        return (bits, {0: G2}, 2 * G2.shape[0])
    return (bits,)


def check_bin(c):
    fn = getattr(cdsp.tx, c['fn'], None) or getattr(cdsp.rx, c['fn'])
    r = np.random.default_rng(c['s'])
    good = r.integers(0, 2, min(c['n'], 1200) + 4)
    G2 = np.array([[1, 1], [0, 1]])
    if c['where'] == 'G':
        G = make_bits(c['bad'])[:4]
        if np.isin(G, (0, 1)).all():
            return
        rejects(fn, *args_for(c['fn'], good, G.reshape(2, 2)), what=f"{c['fn']} with generator {G}")
    else:
        x = make_bits(c['bad'])
        if 'manchester' in c['fn'] and len(x) % 2:
            return
        if c['shape'] and len(x) % 4 == 0 and c['fn'] in CODERS[:6]:
            x = x.reshape(2, -1)
        rejects(fn, *args_for(c['fn'], x, G2), what=f"{c['fn']} of a non-binary pattern with values {np.unique(x)[:6]}")
    try:
        fn(*args_for(c['fn'], good if not ('manchester' in c['fn'] and c['n'] % 2) else good[:-1], G2))
    except Exception as e:
        fail(f"{c['fn']} refuses binary data: {e!r}")


def gen_fb(draw):
    code = gen_code(draw, max_in=2, max_out=3, max_k=4, min_k=2, mem_max=5)
    return dict(code=code, break_=g.pick(draw, 'missing_use', 'shape_in', 'shape_out', 'no_poly', 'fir', 'nonbinary'), k=g.i(draw, 0, 1), j=g.i(draw, 0, 2), fn=g.pick(draw, 'enc', 'ml', 'vit'))


def check_fb(c):
    code = {k: [list(v) if isinstance(v, list) else v for v in c['code'][k]] if c['code'][k] is not None else None for k in ('G', 'fb', 'uf')}
    code = dict(G=[[list(r) for r in rows] for rows in c['code']['G']], fb=None, uf=None)
    n_in, n_out = len(code['G']), len(code['G'][0])
    k, j = c['k'] % n_in, c['j'] % n_out
    # a valid feedback set-up: input k uses feedback everywhere
    code['fb'] = [None] * n_in
    code['fb'][k] = [1] * len(code['G'][k][0])
    code['uf'] = [[1 if q == k else 0] * n_out for q in range(n_in)]
    G, fb, uf = code_args(code)
    fn = {'enc': cdsp.tx.coding_conv, 'ml': cdsp.rx.decoding_conv_ml, 'vit': cdsp.rx.decoding_conv_viterbi}[c['fn']]
    bits = np.array([0, 1, 1, 0, 1, 0] * 2)
    pos = (bits, G) if c['fn'] == 'enc' else (bits, G, 2 * n_out if 2 * n_out <= 12 else n_out)
    call(fn, *pos, feedback=fb, use_feedback=uf)
    b_ = c['break_']
    if b_ == 'missing_use':
        uf = None
    elif b_ == 'shape_in':
        uf = np.concatenate([uf, uf[:1]])
    elif b_ == 'shape_out':
        uf = np.concatenate([uf, uf[:, :1]], axis=1)
    elif b_ == 'no_poly':
        if n_in == 1:
            fb = {}
        else:
            o = 1 - k
            uf[o, j] = 1
    elif b_ == 'fir':
        G[k][j, 1:] = 1
        uf[k, j] = 0
    else:
        fb = dict(fb)
        fb[k] = fb[k] * 2
    rejects(fn, *pos, feedback=fb, use_feedback=uf, what=f"{c['fn']} convolutional code with {b_}")


def gen_size(draw):
    what = g.pick(draw, 'pulse_zi', 'zi_dfe', 'zi_ffe', 'levels', 'ddlms', 'soft_ddlms', 'z_fir', 'z_iir', 'z_tii', 'z_ffedfe', 'nsym')
    return dict(what=what, n=g.i(draw, 1, 8), off=g.pick(draw, -3, -2, -1, 1, 2, 7), m=g.i(draw, 1, 40), s=g.seed(draw), dfe=g.b(draw), later=g.b(draw))


def check_size(c):
    r = np.random.default_rng(c['s'])
    x = r.normal(size=c['m'])
    n, off, w = c['n'], c['off'], c['what']
    if w == 'pulse_zi':
        osr, span = 1 + n % 4, 1 + n // 4
        L = 2 * osr * span - 1
        if L + off < 0:
            return
        call(cdsp.channel.pulse_shape, x, osr=osr, span=span, zi=np.zeros(L))
        rejects(cdsp.channel.pulse_shape, x, osr=osr, span=span, zi=np.zeros(L + off), what=f'pulse_shape with a memory of {L + off} instead of {L}')
    elif w == 'zi_dfe':
        if n + off < 0:
            return
        call(cdsp.rx.ffe_dfe, x, dfe_taps=np.full(n, 0.1), zi_dfe=np.zeros(n))
        rejects(cdsp.rx.ffe_dfe, x, dfe_taps=np.full(n, 0.1), zi_dfe=np.zeros(n + off), what=f'ffe_dfe with a DFE memory of {n + off} instead of {n}')
    elif w == 'zi_ffe':
        L = n + 1
        bad = L + off if off > 0 else L - 1 + off
        if bad < 0:
            return
        kw = dict(ffe_taps=np.full(L, 0.3))
        if c['dfe']:
            kw['dfe_taps'] = np.array([0.1])
        call(cdsp.rx.ffe_dfe, x, zi_ffe=np.zeros(L), **kw)
        rejects(cdsp.rx.ffe_dfe, x, zi_ffe=np.zeros(bad), what=f'ffe_dfe with an FFE memory of {bad} for {L} taps', **kw)
    elif w == 'levels':
        name = list(LEVELS)[n % 4]
        L = len(LEVELS[name])
        if L + off < 1:
            return
        s = r.integers(0, L, c['m'])
        call(cdsp.tx.mapping, s, con(name), levels=np.arange(L))
        rejects(cdsp.tx.mapping, s, con(name), levels=np.arange(L + off), what=f'mapping {name} to {L + off} custom levels')
    elif w in ('ddlms', 'soft_ddlms'):
        m = c['m'] + 4
        if w == 'soft_ddlms':
            return          # not documented to check the reference length
        y = r.normal(size=m)
        call(cdsp.rx.ddlms_grad, y, y.copy(), np.array([-1, 1]), ffe_tap_idx=np.array([0]), reference_vec=np.sign(y))
        rejects(cdsp.rx.ddlms_grad, y, y.copy(), np.array([-1, 1]), ffe_tap_idx=np.array([0]), reference_vec=np.ones(m + off), what=f'ddlms_grad with {m + off} references for {m} samples')
    elif w == 'nsym':
        k = [3, 5, 6, 7, 9, 10, 12, 15, 100][n]
        rejects(cdsp.tx.bin2symbol, r.integers(0, 2, 12), k, what=f'bin2symbol to {k} symbols')
        call(cdsp.tx.bin2symbol, r.integers(0, 2, 12), 2 ** (1 + n % 4))
    else:
        from CommDspy.misc import help_classes as h
        b_, a = np.full(n, 0.2), np.concatenate([[1.0], np.full(c['m'] % 5, 0.1)])
        L = {'z_fir': len(b_), 'z_iir': len(a) - 1, 'z_tii': max(len(a), len(b_)) - 1, 'z_ffedfe': max(len(a), len(b_)) - 1}[w]
        if L + off < 0:
            return
        bad, ok = np.zeros(L + off), np.zeros(L)
        what = f'filter object with {w} of {L + off} instead of {L}'
        if w in ('z_fir', 'z_iir'):
            f = call(h.Filter, b_, a, **{w: ok})
            rejects(getattr(f, 'set_' + w), bad, what=what) if c['later'] else rejects(h.Filter, b_, a, what=what, **{w: bad})
        else:
            mk = (lambda **k: h.FilterTII(b_, a, **k)) if w == 'z_tii' else (lambda **k: h.FfeDfeFilterTII(b_, a, np.array([-1, 1]), **k))
            f = call(mk, z=ok)
            rejects(f.set_z, bad, what=what) if c['later'] else rejects(mk, z=bad, what=what)


WORDS = ('', 'RECT', 'rectangular', 'gauss', 'none', 'u ', 'S', 'sss', 'Lagrange', 'lasso2', 'OLS', 'dbm', 'dBW', 'x')


def gen_name(draw):
    return dict(what=g.pick(draw, 'pulse', 'psa', 'quantize', 'regularization', 'oversample', 'constellation', 'equalization'),
                name=g.pick(draw, *WORDS) if g.i(draw, 0, 2) else ''.join(g.pick(draw, *'abcdefgBmsu/') for _ in range(g.i(draw, 1, 6))), s=g.seed(draw), n=g.i(draw, 30, 90))


VALID = {'pulse': ('rect', 'sinc', 'rcos', 'rrc', 'imp'), 'psa': ('dB', 'dBm', 'dBm/Hz', 'dBuv', 'dBuv/sqrt(Hz)', 'dBc', 'dBFs', 'dBc/Hz', 'dBc/Hz '), 'quantize': ('u', 's', 'ss'),
         'regularization': ('None', 'ridge', 'lasso'), 'equalization': ('None', 'ridge', 'lasso'), 'oversample': ('sinc', 'lagrange', 'rcos'), 'constellation': ()}


def check_name(c):
    if c['name'] in VALID[c['what']]:
        return
    r = np.random.default_rng(c['s'])
    x = r.normal(size=c['n'])
    w, name = c['what'], c['name']
    what = f'{w} {name!r}'
    if w == 'pulse':
        rejects(cdsp.channel.pulse_shape, x, osr=2, span=2, pulse=name, what=what)
    elif w == 'psa':
        from CommDspy.psa import psa
        rejects(psa, x, 1.0, rbw=0.2, mode=name, what=what)
    elif w == 'quantize':
        rejects(cdsp.rx.quantize, x, 4, 1, name, what=what)
    elif w == 'regularization':
        from CommDspy.misc.least_squares import least_squares
        rejects(least_squares, r.normal(size=(c['n'], 2)), x, name, 0.1, what=what)
    elif w == 'equalization':
        rejects(cdsp.equalization_estimation, np.sign(x), x, 2, 1, regularization=name, reg_lambda=0.1, what=what)
    elif w == 'oversample':
        rejects(cdsp.digital_oversample, x, 4, 3, name, what=what, errors=(AttributeError, ValueError))
    else:
        bad = [name, None, len(name), cdsp.PrbsEnum.PRBS7][c['n'] % 4]
        rejects(cdsp.get_levels, bad, what=f'get_levels({bad!r})')
        rejects(cdsp.tx.mapping, np.array([0, 1]), bad, what=f'mapping to constellation {bad!r}')


PROP = Prop('C26', [
    Sub('binary', gen_bin, check_bin, 3000, 40000, nontrivial=lambda c: c['bad']['kind'] != 'const', rule='non-binary data or generators given to binary coders and decoders', big=96),
    Sub('feedback', gen_fb, check_fb, 800, 10000, rule='inconsistent feedback descriptions of convolutional codes'),
    Sub('size', gen_size, check_size, 2500, 30000, rule='memories, level tables, references and alphabets of the wrong size'),
    Sub('name', gen_name, check_name, 1200, 15000, rule='unknown pulses, modes, types, methods, constellations'),
], rule='one illegal ingredient (stray symbol, foreign alphabet, wrong size, inconsistent feedback, unknown name) is injected into an otherwise valid call; oracle: the '
        'call must raise ValueError (AttributeError for oversampling methods), and the valid neighbour must be accepted. Non-trivial: the illegal value is not the whole input.',
    assumptions=['only the checks the library makes or documents are claimed'])
