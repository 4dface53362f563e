"""C05 Gray and differential coding are inverted by their decoders and follow their definitions."""
import numpy as np
import CommDspy as cdsp
from vf.core import Prop, Sub, call, same, expect, fail
from vf import gen as g
from props.c02 import shape2
from props.c03 import con, LEVELS


def enum_gray_vec():
    return [dict(m=m) for m in list(range(2, 70)) + [127, 128, 129, 255, 256, 512]]


def check_gray_vec(c):
    m = c['m']
    v = np.asarray(call(cdsp.get_gray_level_vec, m))
    expect(v.shape == (m,), f'get_gray_level_vec({m}) has shape {v.shape}')
    want = np.array([k ^ (k >> 1) for k in range(m)])
    same(v, want, f'get_gray_level_vec({m}): reflected binary Gray code')


def gen_gray(draw):
    name = g.pick(draw, 'NRZ', 'OOK', 'PAM4', 'PAM4', 'PAM4')
    n = g.size(draw, 1, 3000, big=300000)
    return dict(con=name, sym=g.ints(draw, n, 0, len(LEVELS[name]) - 1), shape=shape2(draw, n), dt=g.dtype(draw), lay=g.layout(draw), default=g.b(draw))


def check_gray(c):
    sym = g.expand(c['sym']).astype(c['dt']).reshape(c['shape'])
    a = () if c['con'] == 'PAM4' and c['default'] else (con(c['con']),)
    s = sym.astype(int)
    want = s if c['con'] != 'PAM4' else (s ^ (s >> 1))
    coded = call(cdsp.tx.coding_gray, g.lay(sym, c['lay']), *a)
    same(coded, want, f"coding_gray {c['con']}")
    same(call(cdsp.rx.decoding_gray, np.array(coded), *a), sym, f"decoding_gray(coding_gray(x)) {c['con']}")
    dec = call(cdsp.rx.decoding_gray, g.lay(sym, c['lay']), *a)
    same(call(cdsp.tx.coding_gray, np.array(dec), *a), sym, f"coding_gray(decoding_gray(x)) {c['con']}")


def gen_diff(draw):
    name = g.pick(draw, *LEVELS)
    n = g.size(draw, 1, 20000, big=600000)
    return dict(con=name, sym=g.ints(draw, n, 0, len(LEVELS[name]) - 1), shape=shape2(draw, n), dt=g.dtype(draw), lay=g.layout(draw), default=g.b(draw))


def check_diff(c):
    sym = g.expand(c['sym']).astype(c['dt']).reshape(c['shape'])
    m = len(LEVELS[c['con']])
    a = () if c['con'] == 'PAM4' and c['default'] else (con(c['con']),)
    want = (np.cumsum(sym.reshape(-1).astype(np.int64)) % m).reshape(c['shape'])
    coded = call(cdsp.tx.coding_differential, g.lay(sym, c['lay']), *a)
    same(coded, want, f"coding_differential {c['con']}: y[n] = (y[n-1] + x[n]) mod {m}")
    same(call(cdsp.rx.decoding_differential, np.array(coded), *a), sym, f"decoding_differential(coding_differential(x)) {c['con']}")
    f = sym.reshape(-1).astype(np.int64)
    wd = (np.diff(f, prepend=0) % m).reshape(c['shape'])
    dec = call(cdsp.rx.decoding_differential, g.lay(sym, c['lay']), *a)
    same(dec, wd, f"decoding_differential {c['con']}: x[n] = (y[n] - y[n-1]) mod {m}")


def gen_rot(draw):
    name = g.pick(draw, *LEVELS)
    n = g.size(draw, 2, 500, big=100000)
    return dict(con=name, sym=g.ints(draw, n, 0, len(LEVELS[name]) - 1), rot=g.i(draw, 1, len(LEVELS[name]) - 1))


def check_rot(c):
    """A constant level rotation of the coded stream only disturbs the first decoded symbol; one symbol error disturbs two."""
    sym = g.expand(c['sym']).astype(int)
    m = len(LEVELS[c['con']])
    coded = np.array(call(cdsp.tx.coding_differential, sym.copy(), con(c['con'])))
    dec = np.asarray(call(cdsp.rx.decoding_differential, (coded + c['rot']) % m, con(c['con'])))
    same(dec[1:], sym[1:], 'decoding a rotated differential stream, after its first symbol')
    k = len(sym) // 2
    hit = coded.copy()
    hit[k] = (hit[k] + c['rot']) % m
    dec = np.asarray(call(cdsp.rx.decoding_differential, hit, con(c['con'])))
    keep = np.ones(len(sym), bool)
    keep[k:k + 2] = False
    same(dec[keep], sym[keep], 'differential decoding away from a single error')


def enum_long():
    return [dict(con=n, sym=dict(seed=j, n=size, lo=0, hi=len(LEVELS[n]) - 1, style=style), shape=[size], dt='int8', lay='c', default=False)
            for j, (n, size, style) in enumerate([('PAM4', 6000000, 'dense'), ('PAM3', 9000000, 'dense'), ('PAM4', 1200000, 'uniform'), ('NRZ', 1100000, 'uniform')])]


def enum_long_gray():
    return [dict(con='PAM4', sym=dict(seed=3, n=1200000, lo=0, hi=3, style='uniform'), shape=[1200000], dt='int64', lay='c', default=True)]


PROP = Prop('C05', [
    Sub('long_differential', None, check_diff, 0, 0, enum=enum_long, rule='millions of symbols'),
    Sub('long_gray', None, check_gray, 0, 0, enum=enum_long_gray, rule='more than a million symbols'),
    Sub('gray_vec', None, check_gray_vec, 0, 0, enum=enum_gray_vec, rule='Gray numbering of 2..69 and larger level counts'),
    Sub('gray', gen_gray, check_gray, 1200, 20000, nontrivial=lambda c: c['con'] == 'PAM4', rule='symbol-wise Gray coding and both round trips', big=64),
    Sub('differential', gen_diff, check_diff, 1500, 25000, rule='running sum / difference modulo the level count over the flattened stream', big=160),
    Sub('rotation', gen_rot, check_rot, 500, 8000, rule='rotation invariance and error locality', big=48),
], rule='constellation, symbol streams (1-3 dimensions, several dtypes and layouts, long streams) drawn; oracle: k xor (k>>1) and running sums '
        'modulo the number of levels. Non-trivial Gray cases are those with more than one bit per symbol.',
    assumptions=['Gray coding is exercised for NRZ, OOK and PAM4 (PAM3 has no Gray coding in the library)'])
