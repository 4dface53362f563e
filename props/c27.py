"""C27 end to end: whatever chain of transmit blocks is chosen, the matching receive blocks return the bits."""
import numpy as np
import CommDspy as cdsp
from vf.core import Prop, Sub, call, same, close, expect, fail
from vf import gen as g
from props.c03 import con, ref_levels
from props.c08 import code_args
from props.c09 import STRONG

BIN = ('none', 'none', 'diff', 'manchester', 'diff_manchester', 'linear', 'conv')
HAMMING = [[1, 0, 0, 0, 1, 1, 0], [0, 1, 0, 0, 1, 0, 1], [0, 0, 1, 0, 0, 1, 1], [0, 0, 0, 1, 1, 1, 1]]


def gen_chain(draw):
    kind = g.pick(draw, 'NRZ', 'OOK', 'PAM4', 'PAM4', 'PAM4', 'PAM3')
    osr = g.pick(draw, 1, 2, 3, 4, 8, 5)
    c = dict(con=kind, fs=g.b(draw), pn_map=g.b(draw), osr=osr, span=g.i(draw, 1, 6), pulse=g.pick(draw, 'rect', 'sinc', 'rcos', 'rcos', 'imp'), beta=g.grid_float(draw, 0.1, 0.9, 16),
             n=g.size(draw, 8, 400, big=6000), bseed=g.seed(draw), src=g.pick(draw, 'random', 'random', 'prbs', 'const'), gain=g.grid_float(draw, 0.25, 2.0, 14), invert=g.b(draw),
             isi=[g.grid_float(draw, -0.4, 0.4, 16) for _ in range(g.i(draw, 0, 4))], noise=g.pick(draw, 0.0, 0.1, 0.3), cuts=g.i(draw, 1, 40 if g.large() else 5), zero_gap=g.i(draw, 0, 1))
    c['bin'] = g.pick(draw, *BIN) if kind != 'PAM3' else g.pick(draw, 'bipolar', 'mlt3')
    c['code'] = g.i(draw, 0, len(STRONG) - 1)
    c['flags'] = [g.b(draw) for _ in range(4)] if kind == 'PAM4' else [False, False, False, g.b(draw) if kind != 'PAM3' else False]
    c['gray'] = g.b(draw) if kind != 'PAM3' else False
    c['sdiff'] = g.b(draw)
    return c


def source(c):
    r = np.random.default_rng(c['bseed'])
    if c['src'] == 'prbs':
        s = np.ones(7, int)
        return np.asarray(call(cdsp.tx.prbs_gen, cdsp.get_polynomial(cdsp.PrbsEnum.PRBS7), s, c['n'])[0]).astype(int)
    if c['src'] == 'const':
        return np.full(c['n'], int(r.integers(2)))
    return r.integers(0, 2, c['n'])


def tx_code(c, bits):
    t, k = cdsp.tx, c['bin']
    if k == 'diff':
        return call(t.coding_differential, bits, con('OOK'))
    if k == 'manchester':
        return call(t.coding_manchester, bits)
    if k == 'diff_manchester':
        return call(t.coding_differential_manchester, bits)
    if k == 'bipolar':
        return call(t.coding_bipolar, bits)
    if k == 'mlt3':
        return call(t.coding_mlt3, bits)
    if k == 'linear':
        return call(t.coding_linear, bits, np.array(HAMMING))
    if k == 'conv':
        G, fb, uf = code_args(STRONG[c['code']])
        return call(t.coding_conv, bits, G, feedback=fb, use_feedback=uf)
    return bits


def rx_code(c, x):
    r, k = cdsp.rx, c['bin']
    if k == 'diff':
        return call(r.decoding_differential, x, con('OOK'))
    if k == 'manchester':
        return call(r.decoding_manchester, x)
    if k == 'diff_manchester':
        return call(r.decoding_differential_manchester, x)
    if k == 'bipolar':
        return call(r.decoding_bipolar, x)
    if k == 'mlt3':
        return call(r.decoding_mlt3, x)
    if k == 'linear':
        return call(r.decoding_linear, x, np.array(HAMMING))
    if k == 'conv':
        G, fb, uf = code_args(STRONG[c['code']])
        no = G[0].shape[0]
        return call(r.decoding_conv_viterbi, x, G, len(x) // no * no, feedback=fb, use_feedback=uf)[0]
    return x


def pieces(x, k):
    return [p for p in np.array_split(x, k) if len(p)]


def check_chain(c):
    bits = source(c)
    k = con(c['con'])
    m = len(ref_levels(c['con']))
    what = f"{c['con']} link, {c['bin']} coding, gray={c['gray']} differential={c['sdiff']} flags={c['flags']} pulse={c['pulse']} osr={c['osr']} isi={c['isi']}"
    bo, im, il, pn = c['flags']
    kw = dict(bit_order_inv=bo, inv_msb=im, inv_lsb=il, pn_inv=pn)
    # transmit
    coded = np.asarray(tx_code(c, bits.copy()))
    drop = m == 4 and len(coded) % 2 and c['bin'] in ('none', 'diff') and c['bseed'] % 2      # the bits after the last whole symbol are not sent
    if drop:
        bits = bits[:-1]
    elif c['bin'] in ('none', 'diff', 'manchester', 'diff_manchester', 'linear', 'conv') and m == 4 and len(coded) % 2:
        coded = np.concatenate([coded, [0]])
    ncode = len(coded) - bool(drop)
    sym = call(cdsp.tx.bin2symbol, coded, m, **kw) if m != 3 else coded
    if c['sdiff']:
        sym = call(cdsp.tx.coding_differential, sym, k)
    if c['gray']:
        sym = call(cdsp.tx.coding_gray, sym, k)
    mapped = np.asarray(call(cdsp.tx.mapping, sym, k, full_scale=c['fs'], pn_inv=c['pn_map']), dtype=float)
    # channel: pulse shaping and symbol-spaced post-cursor ISI, both streamed in chunks
    osr, span = c['osr'], c['span']
    delay = 0 if c['pulse'] == 'imp' else span
    gain = -c['gain'] if c['invert'] else c['gain']
    stream = np.concatenate([mapped, np.zeros(delay)])
    h = call(cdsp.upsample, gain * np.array([1.0] + c['isi']), osr)
    y, zp, zc = [], None, None
    for p in pieces(stream, c['cuts']):
        s, zp = call(cdsp.channel.pulse_shape, p, osr=osr, span=span, pulse=c['pulse'], beta=c['beta'], zi=zp)
        s, zc = call(cdsp.channel.awgn_channel, s, h, [1.0], zi=zc)
        y.append(s)
    y = np.concatenate(y)
    expect(len(y) == len(stream) * osr, f'{what}: {len(y)} line samples for {len(stream)} symbols at osr {osr}')
    # receive: sample, bounded disturbance, equalise, slice, demap, decode
    lv = ref_levels(c['con'], c['fs'])
    rx = y[delay * osr::osr][:len(mapped)]
    half = (lv[1] - lv[0]) / 2
    rx = rx + np.random.default_rng(c['bseed'] + 1).uniform(-1, 1, len(rx)) * half * c['noise'] * abs(gain)
    out, zd = [], None
    lev = np.sort(-lv) if c['pn_map'] else lv
    for p in pieces(rx, c['cuts']):
        if c['isi']:
            s, zd = call(cdsp.rx.ffe_dfe, p, ffe_taps=np.array([1 / gain]), dfe_taps=np.array(c['isi']), levels=lev, zi_dfe=zd)
        else:
            s = call(cdsp.rx.ffe_dfe, p, ffe_taps=np.array([1 / gain]))
        out.append(s)
    sl = call(cdsp.rx.slicer, np.concatenate(out), levels=lev)
    close(sl, mapped, f'{what}: sliced symbols', 1e-9, 1e-9)
    back = call(cdsp.rx.demapping, np.asarray(sl), k, full_scale=c['fs'], pn_inv=c['pn_map'])
    if c['gray']:
        back = call(cdsp.rx.decoding_gray, back, k)
    if c['sdiff']:
        back = call(cdsp.rx.decoding_differential, back, k)
    if m != 3:
        back = call(cdsp.rx.symbol2bin, back, m, **kw)
    back = np.asarray(back)[:ncode]
    if c['bin'] in ('manchester', 'diff_manchester'):
        back = back[:len(back) // 2 * 2] if len(bits) * 2 == ncode else back[:2 * len(bits)]
    if c['bin'] == 'conv':
        no = len(STRONG[c['code']]['G'][0])
        back = back[:len(back) // no * no]
    dec = np.asarray(rx_code(c, back))
    same(dec[:len(bits)], bits, f'{what}: received bits')
    if c['src'] == 'prbs':
        lost, good, err = call(cdsp.rx.prbs_checker, cdsp.PrbsEnum.PRBS7, dec[:len(bits)], True)
        expect(not lost and int(good) == len(bits) and not np.any(err), f'{what}: PRBS checker reports errors on an error-free reception')


PROP = Prop('C27', [
    Sub('chain', gen_chain, check_chain, 5000, 60000, nontrivial=lambda c: c['bin'] != 'none' or c['gray'] or c['sdiff'], big=64, rule='full chains from bits to bits'),
], rule='source, binary line/block/convolutional code, bit-order and inversion flags, differential and Gray coding, constellation, scaling, polarity, pulse, '
        'oversampling, ISI, gain, a disturbance bounded below the decision distance, and the chunking of every streaming block are drawn; oracle: bits in = bits out, '
        'symbols sent = symbols sliced. Non-trivial: at least one coding stage.',
    assumptions=['post-cursor ISI undone by a matching DFE; disturbance at most 0.3 of the decision distance'])
