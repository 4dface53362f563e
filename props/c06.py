"""C06 binary line codes: waveform rules, exact inversion, and error marking."""
import numpy as np
import CommDspy as cdsp
from vf.core import Prop, Sub, call, same, expect, fail
from vf import gen as g
from props.c02 import shape2


def gen_bits(draw):
    n = g.size(draw, 1, 4000, big=300000)
    return dict(bits=g.ints(draw, n, 0, 1), shape=shape2(draw, n), dt=g.dtype(draw, ('int64', 'int64', 'int32')), lay=g.layout(draw))


def bits_of(c):
    f = g.expand(c['bits']).astype(int)
    return f, g.lay(f.reshape(c['shape']).astype(c['dt']), c['lay'])


def dbl(shape):
    return tuple(shape[:-1]) + (2 * shape[-1],)


def check_manchester(c):
    f, arg = bits_of(c)
    want = np.stack([f, 1 - f], axis=1).reshape(dbl(c['shape']))
    coded = call(cdsp.tx.coding_manchester, arg)
    same(coded, want, 'coding_manchester: 1 -> 10, 0 -> 01')
    same(call(cdsp.rx.decoding_manchester, np.array(coded)), f.reshape(c['shape']), 'decoding_manchester(coding_manchester(x))')


def check_diffman(c):
    f, arg = bits_of(c)
    coded = np.asarray(call(cdsp.tx.coding_differential_manchester, arg))
    expect(coded.shape == dbl(c['shape']), f'coding_differential_manchester: shape {coded.shape}')
    s = coded.reshape(-1)
    expect(np.isin(s, (0, 1)).all(), 'coding_differential_manchester: not binary')
    same((s[0::2] != s[1::2]).astype(int), 1 - f, 'coding_differential_manchester: a transition inside the bit exactly for zeros')
    expect((s[1:-1:2] != s[2::2]).all(), 'coding_differential_manchester: missing transition between two bits')
    same(call(cdsp.rx.decoding_differential_manchester, coded.copy()), f.reshape(c['shape']), 'decoding_differential_manchester inverts the coding')
    same(call(cdsp.rx.decoding_differential_manchester, 1 - coded), f.reshape(c['shape']), 'decoding_differential_manchester is blind to polarity')


def check_bipolar(c):
    f, arg = bits_of(c)
    marks = np.cumsum(f)
    want = np.where(f == 0, 1, np.where(marks % 2 == 1, 0, 2)).reshape(c['shape'])
    coded = call(cdsp.tx.coding_bipolar, arg)
    same(coded, want, 'coding_bipolar: zeros at 1, marks alternating 0, 2 over the whole stream')
    for ed in (False, True):
        same(call(cdsp.rx.decoding_bipolar, np.array(coded), error_detection=ed), f.reshape(c['shape']), f'decoding_bipolar(coding_bipolar(x)), error_detection={ed}')


def check_mlt3(c):
    f, arg = bits_of(c)
    want = np.array([0, 1, 2, 1])[np.cumsum(f) % 4].reshape(c['shape'])
    coded = call(cdsp.tx.coding_mlt3, arg)
    same(coded, want, 'coding_mlt3: every 1 advances one step along 0,1,2,1')
    same(call(cdsp.rx.decoding_mlt3, np.array(coded)), f.reshape(c['shape']), 'decoding_mlt3(coding_mlt3(x))')


def gen_err(draw):
    n = g.size(draw, 1, 1500, big=60000)
    return dict(sym=g.ints(draw, n, 0, 2, styles=('uniform', 'uniform', 'runs', 'alt', 'sparse', 'dense', 'const')), shape=shape2(draw, n), lay=g.layout(draw))


def check_bipolar_err(c):
    """Arbitrary received ternary streams: marks that violate the alternation are flagged +-0.5."""
    f = g.expand(c['sym']).astype(int)
    sg = f - 1
    want = np.abs(sg).astype(float)
    idx = np.flatnonzero(sg)
    for a, b_ in zip(idx[:-1], idx[1:]):
        if sg[a] == sg[b_]:
            want[a] = want[b_] = 0.5 * sg[a]
    arr = g.lay(f.reshape(c['shape']), c['lay'])
    same(call(cdsp.rx.decoding_bipolar, arr, error_detection=True), want.reshape(c['shape']), 'decoding_bipolar with error detection')
    same(call(cdsp.rx.decoding_bipolar, arr), np.abs(sg).reshape(c['shape']), 'decoding_bipolar without error detection')


def enum_err():
    import itertools
    out = []
    for n in range(1, 7):
        for v in itertools.product((0, 1, 2), repeat=n):
            out.append(dict(sym={'v': list(v)}, shape=[n], lay='c'))
    return out


def gen_merr(draw):
    n = g.size(draw, 1, 800, big=200000)
    return dict(sym=g.ints(draw, 2 * n, 0, 1), lay=g.layout(draw))


def check_man_err(c):
    f = g.expand(c['sym']).astype(int)
    a, b_ = f[0::2], f[1::2]
    want = np.where(a == b_, 0.5, a)
    same(call(cdsp.rx.decoding_manchester, g.lay(f, c['lay'])), want, 'decoding_manchester: 10 -> 1, 01 -> 0, no transition -> 0.5')
    same(call(cdsp.rx.decoding_differential_manchester, g.lay(f, c['lay'])), (a == b_).astype(int), 'decoding_differential_manchester of any pairs')


def enum_bits():
    import itertools
    out = []
    for n in range(1, 9):
        for v in itertools.product((0, 1), repeat=n):
            out.append(dict(bits={'v': list(v)}, shape=[n], dt='int64', lay='c'))
            if n % 2 == 0 and n > 2:
                out.append(dict(bits={'v': list(v)}, shape=[2, n // 2], dt='int64', lay='c'))
    return out


def enum_long():
    return [dict(code=k, bits=dict(seed=j, n=1100000 + j, lo=0, hi=1, style='uniform'), shape=[1100000 + j], dt='int64', lay='c') for j, k in enumerate(['manchester', 'diff', 'bipolar', 'mlt3'])]


def check_long(c):
    dict(manchester=check_manchester, diff=check_diffman, bipolar=check_bipolar, mlt3=check_mlt3)[c['code']](c)


nt = lambda c: len(set(g.expand(c['bits']).tolist())) > 1
PROP = Prop('C06', [
    Sub('very_long', None, check_long, 0, 0, enum=enum_long, rule='more than a million bits through each code'),
    Sub('manchester', gen_bits, check_manchester, 800, 12000, enum=enum_bits, nontrivial=nt, big=48),
    Sub('diff_manchester', gen_bits, check_diffman, 800, 12000, enum=enum_bits, nontrivial=nt, big=48),
    Sub('bipolar', gen_bits, check_bipolar, 800, 12000, enum=enum_bits, nontrivial=nt, big=48),
    Sub('mlt3', gen_bits, check_mlt3, 800, 12000, enum=enum_bits, nontrivial=nt, big=48),
    Sub('bipolar_errors', gen_err, check_bipolar_err, 800, 12000, enum=enum_err, big=48),
    Sub('manchester_errors', gen_merr, check_man_err, 600, 8000, big=48),
], rule='all bit strings up to 8 bits (and all ternary strings up to 6) plus drawn longer streams of 1-3 dimensions in several styles; oracle: the '
        'waveform rules of each code written out, the decoder round trip, and the documented error marks on arbitrary received streams. '
        'Non-trivial: both bit values occur.',
    assumptions=['decoders of legal streams get streams produced by the coder; Manchester streams have an even last dimension'])
