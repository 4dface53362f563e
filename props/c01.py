"""C01 PRBS generation is the standard maximal-length LFSR sequence, however it is cut up."""
import numpy as np
import CommDspy as cdsp
from vf.core import Prop, Sub, call, same, expect, fail
from vf import gen as g

# taps (1-based exponents of g(x) = 1 + sum x^t), ITU-T O.150 / IEEE 802.3
TAPS = {7: (6, 7), 9: (5, 9), 11: (9, 11), 13: (1, 2, 12, 13), 15: (14, 15), 31: (28, 31)}
# further primitive polynomials for custom orders
CUSTOM = {2: (1, 2), 3: (2, 3), 4: (3, 4), 5: (3, 5), 6: (5, 6), 8: (4, 5, 6, 8), 10: (7, 10), 12: (4, 10, 11, 12), 14: (4, 8, 13, 14),
          17: (14, 17), 20: (17, 20), 23: (18, 23), 29: (27, 29), 35: (33, 35), 47: (42, 47)}
STD = sorted(TAPS)
ALL = {**TAPS, **CUSTOM}


def lfsr(taps, seed, n):
    """Reference: s[k] = xor of s[k-t]; the seed's entry t-1 is s[-t]."""
    deg = max(taps)
    hist = [int(x) for x in seed[::-1]]
    for _ in range(n):
        v = 0
        for t in taps:
            v ^= hist[-t]
        hist.append(v)
    return np.array(hist[deg:], dtype=int), np.array(hist[::-1][:deg], dtype=int)


def poly(order, custom=False):
    if order in TAPS and not custom:
        return np.asarray(call(cdsp.get_polynomial, cdsp.PrbsEnum(order)))
    p = np.zeros(order, dtype=int)
    p[[t - 1 for t in ALL[order]]] = 1
    return p


def seed_bits(draw, order):
    k = g.i(draw, 0, 5)
    if k == 0:
        return [1] * order
    if k == 1:
        v = [0] * order
        v[g.i(draw, 0, order - 1)] = 1
        return v
    return [int(x) for x in np.binary_repr(g.i(draw, 1, 2 ** order - 1), order)]


def length(draw, order, cap):
    per = 2 ** order - 1
    marks = [m for m in (order - 1, order, order + 1, per - 1, per, per + 1, per + order - 1, per + order, 2 * per - 1, 2 * per,
                         2 * per + 1, 2 * per + order // 2, 3 * per, 3 * per + order) if 0 < m <= cap]
    if g.large() and order > 12:
        return g.size(draw, 1, min(cap, 3 * per) // 16, big=min(cap, 3 * per + 5))
    k = g.i(draw, 0, 5)
    if k <= 2 and marks:
        return g.pick(draw, marks)
    if k == 3:
        return g.i(draw, 1, min(cap, 3 * order))
    if k == 4 and per < cap:         # many periods, on and around whole multiples
        return min(cap, max(1, g.i(draw, 1, cap // per) * per + g.pick(draw, -1, 0, 1, order, -order, g.i(draw, 0, per))))
    return g.i(draw, 1, min(cap, 3 * per + 5))


# --- one call ----------------------------------------------------------------------------------
def gen_one(draw):
    order = g.pick(draw, 7, 7, 9, 9, 11, 13, 15, 31, 31, *CUSTOM)
    return dict(order=order, seed=seed_bits(draw, order), n=length(draw, order, (6000 if order < 17 else 3000) if not g.large() else 70000), dt=g.dtype(draw, ('int64', 'int64', 'int32')), lay=g.layout(draw))


def check_one(c):
    p, s = poly(c['order']), g.lay(np.array(c['seed'], dtype=c['dt']), c['lay'])
    seq, zo = call(cdsp.tx.prbs_gen, p, s, c['n'])
    want, want_seed = lfsr(ALL[c['order']], c['seed'], c['n'])
    same(seq, want, f"PRBS{c['order']} sequence of length {c['n']}")
    same(zo, want_seed, f"PRBS{c['order']} final seed after {c['n']} bits")


# --- pieces ------------------------------------------------------------------------------------
def gen_pieces(draw):
    order = g.pick(draw, 7, 9, 11, 13, 15, 31, *CUSTOM)
    m = g.i(draw, 1, 6) if not g.large() else g.i(draw, 5, 60)
    return dict(order=order, seed=seed_bits(draw, order), ns=[length(draw, order, 2000) for _ in range(m)])


def check_pieces(c):
    p, s = poly(c['order']), np.array(c['seed'])
    got = []
    for n in c['ns']:
        q, s = call(cdsp.tx.prbs_gen, p, s, n)
        got.append(np.asarray(q))
    want, _ = lfsr(ALL[c['order']], c['seed'], sum(c['ns']))
    same(np.concatenate(got), want, f"PRBS{c['order']} generated in pieces {c['ns']}")


# --- iterator ----------------------------------------------------------------------------------
def gen_iter(draw):
    order = g.pick(draw, *STD, *CUSTOM)
    return dict(order=order, seed=seed_bits(draw, order), n=length(draw, order, 700 if not g.large() else 9000), handover=g.b(draw))


def check_iter(c):
    p = poly(c['order'])
    it = iter(call(cdsp.tx.PrbsIterator, p, np.array(c['seed'])))
    want, _ = lfsr(ALL[c['order']], c['seed'], c['n'])
    deg = len(c['seed'])
    hist = list(c['seed'][::-1]) + [int(x) for x in want]
    for k in range(c['n']):
        bit = call(next, it)
        if int(bit) != want[k]:
            fail(f"PrbsIterator order {c['order']}: bit {k} is {bit}, expected {want[k]}")
        if k in (0, 1, deg - 1, deg, deg + 1, c['n'] - 1) or k % 97 == 0:
            same(call(it.get_seed), hist[::-1][len(want) - 1 - k:][:deg], f'get_seed after {k + 1} bits')
            same(call(it.get_prev_seed), hist[::-1][len(want) - k:][:deg], f'get_prev_seed after {k + 1} bits')
    if c['handover']:
        seq, _ = call(cdsp.tx.prbs_gen, p, np.asarray(it.get_seed()), 40)
        w2, _ = lfsr(ALL[c['order']], c['seed'], c['n'] + 40)
        same(seq, w2[c['n']:], 'sequence continued from the iterator seed')


# --- whole period is maximal -------------------------------------------------------------------
def enum_period():
    return [dict(order=o, n=n) for o in (2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15) for n in ('period', 'period+7', '2period+3')]


def check_period(c):
    o = c['order']
    per = 2 ** o - 1
    n = {'period': per, 'period+7': per + 7, '2period+3': 2 * per + 3}[c['n']]
    p = poly(o)
    seq, zo = call(cdsp.tx.prbs_gen, p, np.ones(o, dtype=int), n)
    seq = np.asarray(seq)
    expect(seq.shape == (n,), f'PRBS{o}: {seq.shape} bits returned instead of {n}')
    ext = np.concatenate([seq[:per], seq[:o]])
    w = np.zeros(per, dtype=np.int64)
    for k in range(o):
        w = w * 2 + ext[k:k + per]
    expect(len(np.unique(w)) == per and 0 not in w, f'PRBS{o}: the period is not maximal')
    same(seq[per:], np.tile(seq[:per], 8)[per:n], f'PRBS{o} beyond one period')
    want, ws = lfsr(ALL[o], [1] * o, n)
    same(seq, want, f'PRBS{o} from the all-ones seed')
    same(zo, ws, f'PRBS{o} final seed')


def enum_long():
    return [dict(order=31, seed=[1, 0, 0, 1, 1] + [0] * 26, n=1400003, dt='int64', lay='c'), dict(order=15, seed=[0] * 14 + [1], n=1150000, dt='int64', lay='c'),
            dict(order=7, seed=[1, 0, 1, 0, 0, 1, 1], n=1048577 + 127, dt='int32', lay='c'), dict(order=20, seed=[1] * 20, n=1048575 + 40, dt='int64', lay='c')]


PROP = Prop('C01', [
    Sub('very_long', None, check_one, 0, 0, enum=enum_long, rule='more than a million bits in one call'),
    Sub('one_call', gen_one, check_one, 1200, 20000, rule='order, seed, length near order/period landmarks', big=96),
    Sub('pieces', gen_pieces, check_pieces, 800, 12000, nontrivial=lambda c: len(c['ns']) > 1, rule='same sequence cut into 1-6 (up to 60) calls', big=48),
    Sub('iterator', gen_iter, check_iter, 400, 6000, rule='bit iterator against the recurrence, with seed read-back and hand-over', big=48),
    Sub('period', None, check_period, 0, 0, enum=enum_period, rule='one, one-and-a-bit and two periods of every order up to 15'),
], rule='LFSR order (standard and custom primitive polynomials), non-zero seed and length(s) are drawn, lengths biased to the seed length and to '
        'multiples of the period +-1; oracle: the LFSR recurrence computed bit by bit. Non-trivial: more than one piece where pieces are tested.',
    assumptions=['the seed is not all zeros and the polynomial is primitive'])
