"""C08 convolutional encoding is the GF(2) shift-register machine described by G and the feedback polynomials."""
import numpy as np
import CommDspy as cdsp
from vf.core import Prop, Sub, call, same, expect, fail
from vf import gen as g


def gen_code(draw, max_in=3, max_out=4, max_k=5, min_k=1, fb_ok=True, mem_max=99):
    n_in, n_out = g.i(draw, 1, max_in), g.i(draw, 1, max_out)
    use = fb_ok and g.b(draw)
    G, fb, uf, mem = [], [], [], 0
    for k in range(n_in):
        K = g.i(draw, min_k, max(min_k, min(max_k, mem_max - mem - (n_in - 1 - k) * (min_k - 1) + 1)))
        mem += K - 1
        rows = [g.some(draw, 0, 1, K) for _ in range(n_out)]
        urow = [0] * n_out
        poly = None
        if use and g.b(draw):
            poly = [1] + g.some(draw, 0, 1, K - 1)
            for j in range(n_out):
                urow[j] = g.i(draw, 0, 1)
                if not urow[j]:
                    rows[j] = rows[j][:1] + [0] * (K - 1)
        G.append(rows)
        fb.append(poly)
        uf.append(urow)
    return dict(G=G, fb=fb if use else None, uf=uf if use else None)


def code_args(c):
    G = {k: np.array(r, dtype=int) for k, r in enumerate(c['G'])}
    if c['fb'] is None:
        return G, None, None
    return G, {k: np.array(p, dtype=int) for k, p in enumerate(c['fb']) if p is not None}, np.array(c['uf'], dtype=int)


class Machine:
    """One shift register per input, everything in bits."""

    def __init__(self, c):
        self.G, self.fb, self.uf = c['G'], c['fb'], c['uf']
        self.n_in, self.n_out = len(self.G), len(self.G[0])
        self.mem = [len(rows[0]) - 1 for rows in self.G]
        self.zero = tuple((0,) * m for m in self.mem)

    def step(self, state, u):
        out, nxt = [0] * self.n_out, []
        for k in range(self.n_in):
            poly = self.fb[k] if self.fb is not None else None
            w = u[k]
            if poly is not None:
                for t in range(1, len(poly)):
                    w ^= poly[t] & state[k][t - 1]
            line = (w,) + state[k]
            for j in range(self.n_out):
                if poly is not None and not self.uf[k][j]:
                    out[j] ^= self.G[k][j][0] & u[k]
                else:
                    for t, bit in enumerate(line):
                        out[j] ^= self.G[k][j][t] & bit
            nxt.append(line[:-1])
        return out, tuple(nxt)

    def encode(self, bits, state=None):
        bits = [int(x) for x in bits]
        bits += [0] * (-len(bits) % self.n_in)
        state, out = state or self.zero, []
        for s in range(0, len(bits), self.n_in):
            o, state = self.step(state, bits[s:s + self.n_in])
            out += o
        return np.array(out, dtype=int), state


def gen_enc(draw):
    c = gen_code(draw) if g.i(draw, 0, 5) else gen_code(draw, max_in=4, max_out=6, max_k=10) if g.i(draw, 0, 3) else gen_code(draw, max_in=2, max_out=3, max_k=70)
    n = g.size(draw, 1, 700 if c['fb'] is not None else 2500, around=(len(c['G']), 64, 128), big=20000 if c['fb'] is not None else 70000)
    return dict(code=c, bits=g.ints(draw, n, 0, 1), dt=g.pick(draw, 'int64', 'int64', 'int32', 'int8'), lay=g.layout(draw))


def check_enc(c):
    bits = g.expand(c['bits']).astype(int)
    G, fb, uf = code_args(c['code'])
    if fb is None:
        got = call(cdsp.tx.coding_conv, g.lay(bits.astype(c['dt']), c['lay']), G)
    else:
        got = call(cdsp.tx.coding_conv, g.lay(bits.astype(c['dt']), c['lay']), G, feedback=fb, use_feedback=uf)
    want, _ = Machine(c['code']).encode(bits)
    same(got, want, f"coding_conv of {len(bits)} bits, code {c['code']}")


def gen_lin(draw):
    c = gen_code(draw)
    n = g.size(draw, 1, 300, big=8000)
    return dict(code=c, a=g.ints(draw, n, 0, 1), b=g.ints(draw, n, 0, 1), cut=g.i(draw, 0, n), dl=g.i(draw, 0, 20))


def check_lin(c):
    """GF(2) linearity, causality and time invariance: relations needing no machine model."""
    a, b_ = g.expand(c['a']).astype(int), g.expand(c['b']).astype(int)
    G, fb, uf = code_args(c['code'])
    n_in, n_out = len(G), G[0].shape[0]

    def enc(x):
        return np.asarray(call(cdsp.tx.coding_conv, x.copy(), G, feedback=fb, use_feedback=uf))
    ca, cb = enc(a), enc(b_)
    same(enc(a ^ b_), ca ^ cb, 'encode(a xor b) vs encode(a) xor encode(b)')
    z = np.zeros(c['dl'] * n_in, int)
    same(enc(np.concatenate([z, a])), np.concatenate([np.zeros(c['dl'] * n_out, int), ca]), 'encoding after leading zeros')
    cut = c['cut'] // n_in
    if cut:
        mix = np.concatenate([a[:cut * n_in], b_[cut * n_in:]])
        same(enc(mix)[:cut * n_out], ca[:cut * n_out], 'outputs depend only on past inputs')
    expect(len(ca) == -(-len(a) // n_in) * n_out, f'{len(ca)} coded bits for {len(a)} bits of a {n_in}-in {n_out}-out code')


def nt(c):
    return any(len(r[0]) > 1 for r in c['code']['G']) and any(any(x) for r in c['code']['G'] for x in r)


def enum_long():
    return [dict(code=c, bits=dict(seed=j, n=n, lo=0, hi=1, style='uniform'), dt='int64', lay='c')
            for j, (c, n) in enumerate([(dict(G=[[[1, 1, 1], [1, 0, 1]]], fb=None, uf=None), 600000), (dict(G=[[[1, 0], [0, 0], [1, 1]], [[0, 0, 0], [1, 0, 0], [0, 0, 1]]], fb=None, uf=None), 300001),
                                        (dict(G=[[[1, 0, 0], [1, 0, 1]]], fb=[[1, 1, 1]], uf=[[0, 1]]), 150000)])]


PROP = Prop('C08', [
    Sub('very_long', None, check_enc, 0, 0, enum=enum_long, rule='hundreds of thousands of bits'),
    Sub('encode', gen_enc, check_enc, 4000, 60000, nontrivial=nt, rule='random codes with and without feedback against a bit-level shift-register machine', big=48),
    Sub('linear', gen_lin, check_lin, 1500, 25000, nontrivial=nt, rule='linearity, time invariance, causality, rate', big=24),
], rule='codes (1-3 inputs, 1-4 outputs, memory 0-4 per input, optional feedback polynomials used by any subset of the outputs) and messages (any '
        'length, also not divisible by the number of inputs, up to thousands of bits) are drawn; oracle: bit-level shift registers, plus linearity. '
        'Non-trivial: the code has memory and a non-zero generator.',
    assumptions=['a feedback polynomial is as long as the constraint length of its input and starts with 1',
                 'outputs not using the feedback of an input with feedback see only its current bit (otherwise the encoder raises)'])
