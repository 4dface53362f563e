"""C09 convolutional decoding (exhaustive ML and Viterbi) returns a minimum-distance message per traceback block."""
import itertools
import numpy as np
import CommDspy as cdsp
from vf.core import Prop, Sub, call, same, close, expect, fail
from vf import gen as g
from props.c08 import gen_code, code_args, Machine


class Trellis:
    def __init__(self, c):
        self.m = Machine(c)
        parts = [list(itertools.product((0, 1), repeat=k)) for k in self.m.mem]
        self.states = list(itertools.product(*parts))
        self.index = {s: i_ for i_, s in enumerate(self.states)}      # MSB first, input 0 first
        self.inputs = list(itertools.product((0, 1), repeat=self.m.n_in))
        n = len(self.states)
        self.nxt = np.zeros((n, len(self.inputs)), int)
        self.out = np.zeros((n, len(self.inputs), self.m.n_out), int)
        for a, s in enumerate(self.states):
            for b_, u in enumerate(self.inputs):
                o, t = self.m.step(s, u)
                self.out[a, b_], self.nxt[a, b_] = o, self.index[t]

    def forward(self, block):
        """Minimal distance to every end state, and the number of (start, input) candidates reaching the overall minimum."""
        n = len(self.states)
        dist = np.zeros(n, int)
        cnt = [{0: 1} for _ in range(n)]
        for chunk in block.reshape(-1, self.m.n_out):
            cost = np.sum(self.out != chunk[None, None, :], axis=2)
            nd = np.full(n, 10 ** 9)
            nc = [dict() for _ in range(n)]
            for a in range(n):
                for b_ in range(len(self.inputs)):
                    t = self.nxt[a, b_]
                    nd[t] = min(nd[t], dist[a] + cost[a, b_])
                    for d, k in cnt[a].items():
                        key = d + int(cost[a, b_])
                        nc[t][key] = nc[t].get(key, 0) + k
            dist, cnt = nd, nc
        best = int(dist.min())
        return dist, best, sum(c.get(best, 0) for c in cnt)

    def forward_fast(self, block):
        n = len(self.states)
        dist = np.zeros(n, int)
        flat = self.nxt.reshape(-1)
        for chunk in block.reshape(-1, self.m.n_out):
            cost = np.sum(self.out != chunk[None, None, :], axis=2) + dist[:, None]
            dist = np.full(n, 10 ** 9)
            np.minimum.at(dist, flat, cost.reshape(-1))
        return dist, int(dist.min())

    def of_message(self, msg, block):
        """Distance of this message from the block and the end state, for every start state."""
        state = np.arange(len(self.states))
        dist = np.zeros(len(self.states), int)
        pw = 1 << np.arange(self.m.n_in - 1, -1, -1)
        for u, chunk in zip(msg.reshape(-1, self.m.n_in), block.reshape(-1, self.m.n_out)):
            k = int(u.dot(pw))
            dist += np.sum(self.out[state, k] != chunk, axis=1)
            state = self.nxt[state, k]
        return dist, state


def received(c, m):
    r = np.random.default_rng(c['rseed'])
    n = c['blocks'] * c['chunks'] * m.n_out + c['tail']
    if c['kind'] == 'random':
        return r.integers(0, 2, n)
    msg = r.integers(0, 2, (n // m.n_out + 1) * m.n_in)
    rx = m.encode(msg)[0][:n]
    if c['kind'] == 'noisy':
        rx = rx ^ (r.random(n) < c['p'])
    return rx.astype(int)


def gen_rx(draw, code, chunks, blocks):
    n_out = len(code['G'][0])
    return dict(code=code, chunks=chunks, blocks=blocks, tail=g.i(draw, 0, chunks * n_out - 1), kind=g.pick(draw, 'clean', 'noisy', 'noisy', 'random'),
                p=g.pick(draw, 0.02, 0.08, 0.25), rseed=g.seed(draw), perr=g.b(draw), lay=g.layout(draw))


def gen_ml(draw):
    code = gen_code(draw, max_in=2, max_out=3, max_k=3, mem_max=4)
    n_in = len(code['G'])
    mem = sum(len(r[0]) - 1 for r in code['G'])
    chunks = g.i(draw, 1, max(1, (9 - mem) // n_in))
    return gen_rx(draw, code, chunks, g.i(draw, 1, 5))


def judge(c, t, rx, dec, what):
    m = t.m
    nb = c['chunks'] * m.n_in
    dec = np.asarray(dec)
    expect(dec.shape == (c['blocks'] * nb,), f'{what}: {dec.shape} decoded bits, expected {c["blocks"] * nb}')
    expect(bool(np.all((dec == 0) | (dec == 1))), f'{what}: decoded values {np.unique(dec)[:6]}')
    res = []
    for k in range(c['blocks']):
        blk = rx[k * c['chunks'] * m.n_out:(k + 1) * c['chunks'] * m.n_out]
        ends, best = t.forward_fast(blk)
        d, e = t.of_message(dec[k * nb:(k + 1) * nb].astype(int), blk)
        expect(int(d.min()) == best, lambda: f'{what}: block {k} decoded to a message at distance {int(d.min())}, the nearest is at {best}')
        res.append((ends, best, d, e, blk))
    return res


def check_ml(c):
    t = Trellis(c['code'])
    rx = received(c, t.m)
    G, fb, uf = code_args(c['code'])
    out = call(cdsp.rx.decoding_conv_ml, g.lay(rx, c['lay']), G, c['chunks'] * t.m.n_out, feedback=fb, use_feedback=uf, error_prob=c['perr'])
    dec, perr = out if c['perr'] else (out, None)
    res = judge(c, t, rx, dec, 'decoding_conv_ml')
    if c['perr']:
        want = []
        for ends, best, d, e, blk in res:
            _, b2, count = t.forward(blk)
            want.append(0.0 if best == 0 else 1.0 / count)
        close(perr, want, 'decoding_conv_ml error probability', 1e-9, 1e-12)


def gen_vit(draw):
    code = gen_code(draw, max_in=2, max_out=4, max_k=5, min_k=2, mem_max=5)
    return gen_rx(draw, code, g.size(draw, 1, 40, big=400), g.i(draw, 1, 4))


def check_vit(c):
    t = Trellis(c['code'])
    rx = received(c, t.m)
    G, fb, uf = code_args(c['code'])
    out = call(cdsp.rx.decoding_conv_viterbi, g.lay(rx, c['lay']), G, c['chunks'] * t.m.n_out, feedback=fb, use_feedback=uf, error_prob=c['perr'])
    expect(len(out) == (3 if c['perr'] else 2), f'decoding_conv_viterbi returned {len(out)} values')
    res = judge(c, t, rx, out[0], 'decoding_conv_viterbi')
    ends, best, d, e, _ = res[-1]
    last = int(out[1])
    expect(bool(np.any((d == best) & (e == last))), f'decoding_conv_viterbi: the decoded path of the last block does not end in state {last}')
    if c['perr']:
        want = []
        for ends, best, d, e, blk in res:
            k = int(np.sum(ends == best))
            want.append(1.0 / k if k > 1 else 0.0)
        close(out[2], want, 'decoding_conv_viterbi error probability', 1e-9, 1e-12)


def octal(*gens):
    w = max(int(str(x), 8) for x in gens).bit_length()
    return [[(int(str(x), 8) >> b_) & 1 for b_ in range(w - 1, -1, -1)] for x in gens]


WIDE = [dict(G=[octal(133, 171)], fb=None, uf=None), dict(G=[octal(561, 753)], fb=None, uf=None), dict(G=[octal(1167, 1545)], fb=None, uf=None),
        dict(G=[[octal(133, 100)[1], octal(133, 171)[0]]], fb=[octal(171)[0]], uf=[[0, 1]]), dict(G=[octal(23, 35, 0), octal(5, 0, 7)], fb=None, uf=None)]


def enum_wide():
    for j, code in enumerate(WIDE):
        mem = sum(len(r[0]) - 1 for r in code['G'])
        for kind, p in (('clean', 0.0), ('noisy', 0.05), ('random', 0.5))[1 if mem > 8 else 0:2 if mem > 8 else 3]:
            yield dict(code=code, chunks=40 if mem < 9 else 25, blocks=2 if mem < 9 else 1, tail=j % 2, kind=kind, p=p, rseed=j, perr=kind != 'clean', lay='c')


def enum_long():
    c75 = STRONG[0]
    return [dict(code=c75, chunks=9000, blocks=1, tail=1, kind='random', p=0.0, rseed=1, perr=True, lay='c'), dict(code=c75, chunks=4000, blocks=2, tail=0, kind='noisy', p=0.02, rseed=2, perr=False, lay='c'),
            dict(code=c75, chunks=20, blocks=1500, tail=5, kind='noisy', p=0.02, rseed=3, perr=True, lay='c'), dict(code=STRONG[2], chunks=12, blocks=2500, tail=0, kind='random', p=0.0, rseed=4, perr=True, lay='c')]


def enum_long_ml():
    return [dict(code=STRONG[0], chunks=4, blocks=b_, tail=3, kind=k, p=0.1, rseed=5 + b_, perr=e, lay='c') for b_, k, e in ((5000, 'noisy', False), (1500, 'random', True))]


def gen_back(draw):
    code = g.pick(draw, *STRONG)
    return dict(code=code, n=g.i(draw, 4, 40), mseed=g.seed(draw), gap=g.i(draw, 0, 3), first=g.i(draw, 0, 13), alg='vit')


STRONG = [dict(G=[[[1, 1, 1], [1, 0, 1]]], fb=None, uf=None),                       # (7,5), d_free 5
          dict(G=[[[1, 1, 1, 1], [1, 1, 0, 1]]], fb=None, uf=None),                 # (17,15), d_free 6
          dict(G=[[[1, 0, 0], [1, 0, 1]]], fb=[[1, 1, 1]], uf=[[0, 1]]),            # recursive systematic (1, 5/7)
          dict(G=[[[1, 1, 1], [1, 1, 1], [1, 0, 1]]], fb=None, uf=None)]            # rate 1/3, d_free 8


def check_back(c):
    """A sparse error pattern inside one block is corrected away from the (unterminated) block edges."""
    m = Machine(c['code'])
    r = np.random.default_rng(c['mseed'])
    guard = 14
    msg = r.integers(0, 2, c['n'] + 2 * guard)
    rx, _ = m.encode(msg)
    pos = (guard + c['first'] % c['n']) * m.n_out + int(r.integers(m.n_out))
    hit = rx.copy()
    hit[pos] ^= 1
    G, fb, uf = code_args(c['code'])
    out = call(cdsp.rx.decoding_conv_viterbi, hit, G, len(hit), feedback=fb, use_feedback=uf)
    got = np.asarray(out[0])
    same(got[guard:-guard], msg[guard:-guard], 'message decoded from a stream with one flipped bit')


PROP = Prop('C09', [
    Sub('long_viterbi', None, check_vit, 0, 0, enum=enum_long, rule='blocks of thousands of steps, thousands of blocks'),
    Sub('long_ml', None, check_ml, 0, 0, enum=enum_long_ml, rule='thousands of blocks'),
    Sub('standard', None, check_vit, 0, 0, enum=enum_wide, rule='standard codes of constraint length 7 to 10 (64 to 512 states)'),
    Sub('ml', gen_ml, check_ml, 800, 12000, nontrivial=lambda c: c['kind'] != 'clean', rule='exhaustive ML decoding judged by a trellis DP'),
    Sub('viterbi', gen_vit, check_vit, 1600, 25000, nontrivial=lambda c: c['kind'] != 'clean' and c['chunks'] > 1, rule='Viterbi, up to 32 states and 40 chunks per block (400 in the big cases)', big=64),
    Sub('single_error', gen_back, check_back, 200, 3000, rule='standard codes recover the sent message from a stream with one bit error'),
], rule='codes (with and without feedback), traceback lengths, number of blocks, trailing residue and received streams (clean, noisy, random) are '
        'drawn; oracle: an independent dynamic program over the shift-register machine gives the minimal distance over all start states, end states and '
        'candidate counts; any message attaining it is accepted. Non-trivial: the stream is not an undisturbed codeword.',
    assumptions=['traceback length is a multiple of the number of outputs; at least one whole block', 'Viterbi: every input has at least one delay element'])
