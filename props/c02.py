"""C02 bits <-> symbols packing is a fixed, flag-controlled bijection."""
import numpy as np
import CommDspy as cdsp
from vf.core import Prop, Sub, call, same, expect
from vf import gen as g

FLAGS = ('bit_order_inv', 'inv_msb', 'inv_lsb', 'pn_inv')


def ref_pack(bits, M, bit_order_inv, inv_msb, inv_lsb, pn_inv):
    """Reference: least significant bit first; swap, then invert MSB / LSB, then invert everything."""
    k = M.bit_length() - 1
    bits = [int(x) for x in bits]
    if k == 1:
        return np.array([1 - x if pn_inv else x for x in bits], dtype=int)
    out = []
    for s in range(len(bits) // k):
        w = bits[s * k:(s + 1) * k]
        if bit_order_inv:
            w = w[::-1]
        if inv_msb:
            w = w[:-1] + [1 - w[-1]]
        if inv_lsb:
            w = [1 - w[0]] + w[1:]
        if pn_inv:
            w = [1 - x for x in w]
        out.append(sum(x << j for j, x in enumerate(w)))
    return np.array(out, dtype=int)


def shape2(draw, n):
    """A 2-D/3-D shape with n elements if there is one, else 1-D."""
    divs = [d for d in range(1, n + 1) if n % d == 0][:12]
    k = g.i(draw, 0, 3)
    if k <= 1 or n == 0:
        return [n]
    d = g.pick(draw, divs)
    if k == 2:
        return [d, n // d]
    e = g.pick(draw, [x for x in range(1, n // d + 1) if (n // d) % x == 0][:8])
    return [d, e, n // d // e]


def gen_pack(draw):
    k = g.pick(draw, 1, 2, 2, 2, 3, 4, 5, 6, 8, 10)
    n = g.size(draw, 1, 5000, around=(k, 2 * k, 3 * k), big=150000)
    c = dict(k=k, bits=g.ints(draw, n, 0, 1), shape=shape2(draw, n), dt=g.dtype(draw, ('int64', 'int64', 'int32')), lay=g.layout(draw))
    c['M'] = 2 ** k
    c.update({f: g.b(draw) for f in FLAGS})
    return c


def check_pack(c):
    bits = g.expand(c['bits']).astype(int)
    fl = {f: c[f] for f in FLAGS}
    arg = g.lay(bits.reshape(c['shape']).astype(c['dt']), c['lay'])
    sym = call(cdsp.tx.bin2symbol, arg, c['M'], **fl)
    want = ref_pack(bits, c['M'], **fl)
    same(sym, want, f"bin2symbol {c['M']} symbols {fl}")
    if len(want):
        back = call(cdsp.rx.symbol2bin, np.asarray(want), c['M'], **fl)
        same(back, bits[:len(want) * c['k']], f"symbol2bin(bin2symbol(bits)) with {c['M']} symbols {fl}")


def gen_unpack(draw):
    k = g.pick(draw, 1, 2, 2, 3, 4, 6)
    n = g.size(draw, 1, 2000, big=60000)
    c = dict(k=k, M=2 ** k, sym=g.ints(draw, n, 0, 2 ** k - 1), shape=shape2(draw, n), dt=g.dtype(draw, ('int64', 'int64', 'int32')), lay=g.layout(draw))
    c.update({f: g.b(draw) for f in FLAGS})
    return c


def check_unpack(c):
    sym = g.expand(c['sym']).astype(int)
    fl = {f: c[f] for f in FLAGS}
    bits = call(cdsp.rx.symbol2bin, g.lay(sym.reshape(c['shape']).astype(c['dt']), c['lay']), c['M'], **fl)
    bits = np.asarray(bits)
    expect(bits.shape == (len(sym) * c['k'],), f'symbol2bin returned shape {bits.shape} for {len(sym)} symbols of {c["k"]} bits')
    expect(np.isin(bits, (0, 1)).all(), 'symbol2bin returned something that is not a bit')
    same(ref_pack(bits, c['M'], **fl), sym, f'symbol2bin {c["M"]} symbols {fl}: the bits do not pack back to the symbols')
    same(call(cdsp.tx.bin2symbol, bits, c['M'], **fl), sym, f'bin2symbol(symbol2bin(symbols)) {fl}')


def enum_unpack():
    out = []
    for k in (1, 2, 3):
        for v in range(2 ** k):
            for m in range(16):
                c = dict(k=k, M=2 ** k, sym={'v': [v]}, shape=[1], dt='int64', lay='c')
                c.update({f: bool(m >> j & 1) for j, f in enumerate(FLAGS)})
                out.append(c)
                out.append(dict(c, sym={'v': [v, 2 ** k - 1 - v, 0]}, shape=[3]))
    return out


def gen_uint(draw):
    nb = g.pick(draw, g.i(draw, 1, 4), g.i(draw, 1, 16), g.i(draw, 1, 16), g.i(draw, 17, 62))
    n = g.size(draw, 1, 400, big=30000)
    return dict(nb=nb, vals=g.ints(draw, n, 0, 2 ** nb - 1), shape=shape2(draw, n), lay=g.layout(draw))


def check_uint(c):
    v = g.expand(c['vals']).astype(int).reshape(c['shape'])
    nb = c['nb']
    want = np.array([[(int(x) >> (nb - 1 - j)) & 1 for j in range(nb)] for x in v.reshape(-1)]).reshape(v.shape + (nb,))
    got = call(cdsp.uint2bin, g.lay(v, c['lay']), nb)
    same(got, want, f'uint2bin to {nb} bits')
    same(call(cdsp.bin2uint, g.lay(want, c['lay'])), v, 'bin2uint')
    same(call(cdsp.bin2uint, np.asarray(got)), v, 'bin2uint(uint2bin(x))')


def enum_perm():
    return [dict(k=k) for k in range(1, 15)]


def check_perm(c):
    k = c['k']
    p = np.asarray(call(cdsp.get_bin_perm, k))
    want = (np.arange(2 ** k)[:, None] >> np.arange(k - 1, -1, -1)) & 1
    same(p, want, f'get_bin_perm({k})')


def enum_long():
    out = []
    for j, (k, n) in enumerate([(1, 1100000), (2, 2200001), (3, 1100003), (8, 1300000)]):
        c = dict(k=k, M=2 ** k, bits=dict(seed=70 + j, n=n, lo=0, hi=1, style='uniform'), shape=[n], dt='int64', lay='c')
        c.update({f: bool((5 + 6 * j) >> q & 1) for q, f in enumerate(FLAGS)})
        out.append(c)
    return out


PROP = Prop('C02', [
    Sub('very_long', None, check_pack, 0, 0, enum=enum_long, rule='more than a million bits'),
    Sub('pack', gen_pack, check_pack, 1600, 30000, nontrivial=lambda c: c['k'] > 1, rule='bin2symbol against a bit-by-bit reference, and back', big=64),
    Sub('unpack', gen_unpack, check_unpack, 1200, 20000, enum=enum_unpack, nontrivial=lambda c: c['k'] > 1, rule='symbol2bin, single symbols included', big=48),
    Sub('uint', gen_uint, check_uint, 2000, 10000, rule='bin2uint / uint2bin on tensors', big=32),
    Sub('perm', None, check_perm, 0, 0, enum=enum_perm, rule='get_bin_perm, k=1..14'),
], rule='symbol alphabet size, all four inversion flags, array shapes (1-3 dimensions), dtypes, memory layouts and lengths (including lengths not '
        'divisible by the bits per symbol) are drawn; oracle: bit-by-bit packing and the round trip. Non-trivial: more than one bit per symbol.',
    assumptions=['inputs are bits / symbols inside the alphabet, alphabet sizes are powers of two'])
