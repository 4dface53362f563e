"""C07 linear block codes: GF(2) encoding and minimum-distance decoding."""
import numpy as np
import CommDspy as cdsp
from vf.core import Prop, Sub, call, same, close, expect, fail
from vf import gen as g


def gen_G(draw, kmax=6, nmax=12):
    k = g.i(draw, 1, kmax)
    n = g.i(draw, k, max(k, nmax))
    if g.large() and g.b(draw):       # long codewords; many message bits only where no codebook is searched
        k = g.i(draw, 1, 320 if kmax > 6 else 3)
        n = g.i(draw, k, k + 330)
    if g.b(draw):     # systematic, hence injective
        p = g.ints(draw, k * (n - k), 0, 1)
        return dict(k=k, n=n, sys=True, P=p)
    return dict(k=k, n=n, sys=False, P=g.ints(draw, k * n, 0, 1))


def G_of(c):
    k, n = c['k'], c['n']
    p = g.expand(c['P']).astype(int)
    if c['sys']:
        return np.concatenate([np.eye(k, dtype=int), p.reshape(k, n - k)], axis=1)
    return p.reshape(k, n)


def ref_encode(bits, G):
    k, n = G.shape
    bits = [int(b) for b in bits] + [0] * (-len(bits) % k)
    out = []
    for s in range(0, len(bits), k):
        w = [0] * n
        for i_ in range(k):
            if bits[s + i_]:
                w = [a ^ int(b) for a, b in zip(w, G[i_])]
        out += w
    return np.array(out, dtype=int)


def gen_enc(draw):
    G = gen_G(draw, 12, 24)
    n = g.size(draw, 1, 3000, around=(G['k'], 2 * G['k'], 5 * G['k']), big=80000)
    return dict(G=G, bits=g.ints(draw, n, 0, 1), dt=g.dtype(draw, ('int64', 'int64', 'int32')), lay=g.layout(draw))


def check_enc(c):
    G = G_of(c['G'])
    bits = g.expand(c['bits']).astype(int)
    got = call(cdsp.tx.coding_linear, g.lay(bits.astype(c['dt']), c['lay']), G.copy())
    same(got, ref_encode(bits, G), f'coding_linear with a {G.shape} generator on {len(bits)} bits')


def gen_dec(draw):
    G = gen_G(draw)
    n = g.size(draw, 1, 300, around=(G['k'], 2 * G['k']), big=max(301, min(20000, G['k'] * 3000000 // (2 ** G['k'] * G['n']))))
    return dict(G=G, bits=g.ints(draw, n, 0, 1), flip=g.pick(draw, 0.0, 0.0, 0.02, 0.08, 0.2, 0.5), fseed=g.seed(draw), tail=g.i(draw, 0, G['n'] - 1), lay=g.layout(draw))


def decode_check(rx, G, dec, perr, what, sent=None):
    """Every block must decode to a message of minimal distance; unique minima leave no freedom."""
    k, n = G.shape
    msgs = (np.arange(2 ** k)[:, None] >> np.arange(k - 1, -1, -1)) & 1
    words = msgs.dot(G) % 2
    nb = len(rx) // n
    dec = np.asarray(dec)
    expect(dec.shape == (nb * k,), f'{what}: decoded shape {dec.shape}, expected {(nb * k,)}')
    expect(np.isin(dec, (0, 1)).all(), f'{what}: decoded values are not bits')
    if perr is not None:
        perr = np.asarray(perr)
        expect(perr.shape == (nb,), f'{what}: error probability shape {perr.shape}, expected {(nb,)}')
    blk = rx[:nb * n].reshape(nb, n)
    dist = (words[:, None, :] != blk[None]).sum(axis=2)
    best = dist.min(axis=0)
    d = dec.astype(int).reshape(nb, k)
    mine = ((d.dot(G) % 2) != blk).sum(axis=1)
    bad = mine != best
    if bad.any():
        j = int(np.argmax(bad))
        fail(f'{what}: block {j} {blk[j].tolist()} decoded to {d[j].tolist()} at distance {int(mine[j])}, a message at distance {int(best[j])} exists')
    if perr is not None:
        cnt = (dist == best).sum(axis=0)
        want = np.where(best > 0, 1.0 / cnt, 0.0)
        close(perr, want, f'{what}: error probability', rtol=1e-12, atol=1e-12)


def check_dec(c):
    G = G_of(c['G'])
    k, n = G.shape
    bits = g.expand(c['bits']).astype(int)
    tx = ref_encode(bits, G)
    r = np.random.default_rng(c['fseed'])
    rx = tx ^ (r.random(len(tx)) < c['flip'])
    rx = np.concatenate([rx, r.integers(0, 2, c['tail'])]).astype(int)
    dec = call(cdsp.rx.decoding_linear, g.lay(rx, c['lay']), G.copy())
    decode_check(rx, G, dec, None, 'decoding_linear')
    dec2, perr = call(cdsp.rx.decoding_linear, g.lay(rx, c['lay']), G.copy(), True)
    decode_check(rx, G, dec2, perr, 'decoding_linear(error_prob=True)')
    if c['G']['sys'] and c['flip'] == 0.0:
        nb = len(tx) // n
        msg = np.concatenate([bits, np.zeros(-len(bits) % k, dtype=int)])
        same(np.asarray(dec)[:nb * k], msg, 'decoding_linear(coding_linear(bits)) without errors')


def gen_corr(draw):
    """Codes with a known minimum distance, errors within the correction radius of every block."""
    name = g.pick(draw, 'hamming74', 'rep3', 'rep5', 'rep7', 'ext84', 'hamming1511')
    nb = g.i(draw, 1, 40 if name != 'hamming1511' else 4)
    if g.i(draw, 0, 3) == 0:
        name = f"rep{g.pick(draw, g.i(draw, 8, 140), g.i(draw, 120, 1200), g.i(draw, 250, 600))}"
    return dict(name=name, nb=nb, seed=g.seed(draw))


H74 = np.array([[1, 0, 0, 0, 1, 1, 0], [0, 1, 0, 0, 1, 0, 1], [0, 0, 1, 0, 0, 1, 1], [0, 0, 0, 1, 1, 1, 1]])


def named(name):
    if name == 'hamming74':
        return H74, 1
    if name == 'ext84':
        return np.concatenate([H74, H74.sum(axis=1, keepdims=True) % 2], axis=1), 1
    if name == 'hamming1511':
        cols = [v for v in range(1, 16) if bin(v).count('1') > 1]
        P = np.array([[(v >> j) & 1 for j in range(4)] for v in cols])
        return np.concatenate([np.eye(11, dtype=int), P], axis=1), 1
    r = int(name[3:])
    return np.ones((1, r), dtype=int), (r - 1) // 2


def check_corr(c):
    G, t = named(c['name'])
    k, n = G.shape
    r = np.random.default_rng(c['seed'])
    bits = r.integers(0, 2, k * c['nb'])
    rx = np.asarray(call(cdsp.tx.coding_linear, bits.copy(), G.copy())).copy()
    same(rx, ref_encode(bits, G), f"coding_linear {c['name']}")
    for j in range(c['nb']):
        e = r.choice(n, int(r.integers(0, t + 1)), replace=False)
        rx[j * n + e] ^= 1
    same(call(cdsp.rx.decoding_linear, rx.copy(), G.copy()), bits, f"{c['name']} corrects up to {t} errors per block")
    dec, perr = call(cdsp.rx.decoding_linear, rx.copy(), G.copy(), True)
    same(dec, bits, f"{c['name']} corrects up to {t} errors per block (error_prob=True)")


def enum_long():
    return [dict(name=n, size=s, seed=j) for j, (n, s) in enumerate([('hamming74', 1200001), ('rep3', 400000), ('ext84', 1000000)])]


def enum_wide():
    return [dict(name=f'rep{n}', nb=nb, seed=n) for n, nb in ((127, 60), (129, 60), (255, 60), (257, 60), (300, 60), (513, 60), (1025, 60), (32769, 40), (33500, 60), (65537, 40), (67000, 60))]


def check_long(c):
    G, t = named(c['name'])
    k, n = G.shape
    r = np.random.default_rng(c['seed'])
    bits = r.integers(0, 2, c['size'])
    msg = np.concatenate([bits, np.zeros(-len(bits) % k, dtype=int)])
    want = (msg.reshape(-1, k) @ G % 2).reshape(-1)
    code = call(cdsp.tx.coding_linear, bits.copy(), G.copy())
    same(code, want, f"coding_linear of {len(bits)} bits, {c['name']}")
    rx = want.reshape(-1, n).copy()
    rx[np.arange(len(rx)), r.integers(0, n, len(rx))] ^= r.integers(0, 2, len(rx))
    same(call(cdsp.rx.decoding_linear, rx.reshape(-1), G.copy()), msg, f"decoding_linear of {len(rx)} blocks of {c['name']} with at most one error each")


PROP = Prop('C07', [
    Sub('very_long', None, check_long, 0, 0, enum=enum_long, rule='hundreds of thousands of blocks'),
    Sub('encode', gen_enc, check_enc, 1000, 15000, nontrivial=lambda c: c['G']['k'] > 1, rule='GF(2) product with zero padding, k<=12, n<=24; up to 320x650 in the big cases', big=64),
    Sub('decode', gen_dec, check_dec, 1200, 15000, nontrivial=lambda c: c['flip'] > 0, rule='random codes (also degenerate generators), random bit flips, residual tail', big=64),
    Sub('long_words', None, check_corr, 0, 0, enum=enum_wide, rule='repetition codes of up to 67000 bits with errors up to half a word'),
    Sub('correct', gen_corr, check_corr, 400, 5000, rule='Hamming / repetition codes with errors inside the correction radius'),
], rule='generator matrices (systematic or arbitrary), messages of any length, bit flips and a trailing incomplete block are drawn; oracle: bit-wise '
        'GF(2) encoding and a validity predicate - the decoded message must be at minimal Hamming distance, p_err = 1/#nearest or 0. '
        'Non-trivial: k>1 (encode), at least some flips (decode).',
    assumptions=['binary input and generator'])
