"""C28 the example link simulation: blocks invert each other and stream chunk by chunk without seams."""
import os
import sys
import numpy as np
import CommDspy as cdsp
from vf import boot
from vf.core import Prop, Sub, call, same, close, expect, fail
from vf import gen as g
from props.c01 import TAPS as POLY, lfsr as ref_prbs
from props.c03 import con, LEVELS, ref_levels
from props.c08 import code_args
from props.c09 import STRONG
from props.c13 import ref_pulse, grid
from props.c14 import ref_filter, gen_taps
from props.c17 import ref as ref_eq
from props.c22 import grads as lms_grads
from props.c27 import HAMMING


def parts():
    from example_simulation.simulation_parts import data_objects, transmitter, channel, receiver, full_link
    from example_simulation.analyzer import analyzer_classes
    return data_objects, transmitter, channel, receiver, full_link, analyzer_classes


BINS = ('none', 'none', 'manchester', 'diff_manchester', 'linear', 'conv')


def gen_coding(draw):
    k = g.pick(draw, 'NRZ', 'OOK', 'PAM4', 'PAM4', 'PAM4')
    chunk = 24 * (g.i(draw, 1, 6) if not g.large() else g.i(draw, 7, 250))
    return dict(con=k, chunk=chunk, bin=g.pick(draw, *BINS) if g.i(draw, 0, 4) else g.pick(draw, 'bipolar', 'mlt3'), bdiff=g.b(draw), gray=g.b(draw), sdiff=g.b(draw),
                flags=[g.b(draw) for _ in range(4)], code=g.i(draw, 0, 3), order=g.pick(draw, 7, 9, 11, 13, 15, 31), fl=g.b(draw))


def coding_data(c):
    d = parts()[0]
    k = c['con']
    kw = {}
    if c['bin'] in ('bipolar', 'mlt3'):
        k, bps = 'PAM3', 1
        kw['coding_' + c['bin']] = True
        flags = [False] * 4
        gray = False
    else:
        bps = np.log2(len(LEVELS[k])) if c['fl'] else {2: 1, 4: 2}[len(LEVELS[k])]
        flags, gray = c['flags'], c['gray']
        if c['bin'] == 'manchester':
            kw['coding_manchester'] = True
        elif c['bin'] == 'diff_manchester':
            kw['coding_diff_manchester'] = True
        elif c['bin'] == 'linear':
            kw.update(coding_linear=True, G=np.array(HAMMING))
        elif c['bin'] == 'conv':
            G, fb, uf = code_args(STRONG[c['code']])
            kw.update(coding_conv=True, G=G, feedback=fb, use_feedback=uf)
    kw.update(coding_bin_differential=c['bdiff'], coding_gray=gray, coding_differential=c['sdiff'])
    kw.update(zip(('bit_order_inv', 'inv_msb', 'inv_lsb', 'pn_inv'), flags))
    return d.CodingData(bps, con(k), c['chunk'], **kw), k


def check_coding(c):
    _, t, _, r, _, _ = parts()
    cd, k = call(coding_data, c)
    enc, dec = call(t.Encoder, cd), call(r.Decoder, cd)
    bits = np.random.default_rng(c['chunk'] * 7 + c['order']).integers(0, 2, c['chunk'])
    what = f"example link coding {c}"
    coded = np.asarray(call(enc, bits.copy()))
    expect(coded.min() >= 0 and coded.max() < len(LEVELS[k]), f'{what}: coded symbols {np.unique(coded)} outside {k}')
    back = np.asarray(call(dec, coded.copy()))
    same(back[:len(bits)], bits, f'{what}: Decoder(Encoder(bits))')


def gen_fix(draw):
    return dict(con=g.pick(draw, 'NRZ', 'OOK'), chunk=24 * g.i(draw, 4, 16), bin=g.pick(draw, 'linear', 'conv', 'conv'), bdiff=g.b(draw), gray=g.b(draw), sdiff=False, flags=[False, False, False, g.b(draw)],
                code=g.i(draw, 0, 3), order=0, fl=g.b(draw), seed=g.seed(draw))


def check_fix(c):
    """One wrong symbol per Hamming block, or per decoding block of the convolutional code away from its edges, is corrected."""
    _, t, _, r, _, _ = parts()
    cd, k = call(coding_data, c)
    rng = np.random.default_rng(c['seed'])
    bits = rng.integers(0, 2, c['chunk'])
    coded = np.array(call(call(t.Encoder, cd), bits.copy()))
    rx = coded.copy()
    block, guard = (7, 0) if c['bin'] == 'linear' else (c['chunk'], 14 * len(STRONG[c['code']]['G'][0]))
    for s in range(0, len(rx), block):
        q = s + int(rng.integers(guard, block - guard))
        if rng.integers(4) and q < len(rx):
            rx[q] = 1 - rx[q]
    back = np.asarray(call(call(r.Decoder, cd), rx.copy()))
    same(back[:len(bits)], bits, f'example link coding {c}: {int(np.sum(rx != coded))} wrong symbols, one per block')


def gen_tx(draw):
    c = gen_coding(draw)
    c.update(amp=g.pick(draw, 2, 750, 1.5), lev=g.b(draw), chunks=g.i(draw, 1, 5), bin='none', bdiff=False, sdiff=False)
    return c


def check_tx(c):
    """Consecutive chunks are one PRBS stream, mapped symbol by symbol."""
    d, t, _, _, _, _ = parts()
    cd, k = call(coding_data, c)
    pd = call(d.PrbsData, cdsp.PrbsEnum(c['order']), c['chunk'])
    lv = np.array(LEVELS[k], float)
    md = call(d.MappingData, con(k), lv.copy(), c['amp']) if c['lev'] else call(d.MappingData, con(k))
    tx = call(t.Transmitter, pd, cd, md)
    n = c['chunk'] * c['chunks']
    want_bits = ref_prbs(POLY[c['order']], [1] * c['order'], n)[0]
    want_bits = np.asarray(want_bits)
    use = lv / np.max(np.abs(lv)) * c['amp'] / 2 if c['lev'] else lv
    bo, im, il, pn = c['flags']
    m = len(lv)
    pairs = want_bits.reshape(-1, 1) if m == 2 else want_bits.reshape(-1, 2)
    sym = []
    for p in pairs:
        if m == 2:
            s = 1 - p[0] if pn else p[0]
        else:
            a, b_ = (p[1], p[0]) if bo else (p[0], p[1])     # a: weight 1, b_: weight 2
            b_ = 1 - b_ if im else b_
            a = 1 - a if il else a
            if pn:
                a, b_ = 1 - a, 1 - b_
            s = a + 2 * b_
        sym.append(s ^ (s >> 1) if c['gray'] and m == 4 else s)
    want = use[np.array(sym)]
    got, bits = [], []
    for q in range(c['chunks']):
        before = np.array(tx.prbs_gen.get_seed())
        got.append(np.asarray(call(tx.generate)))
        bits.append(np.asarray(tx.prbs_chunk))
        same(tx.prbs_gen.get_prev_seed(), before, f'example transmitter: previous seed after chunk {q}')
    same(np.concatenate(bits), want_bits, f'example transmitter PRBS{c["order"]} in chunks of {c["chunk"]}')
    close(np.concatenate(got), want, f'example transmitter {c["con"]} levels {use}, gray={c["gray"]}, flags={c["flags"]}', 1e-12, 1e-12)


def gen_ch(draw):
    n = g.size(draw, 1, 40, big=1500)
    return dict(t=gen_taps(draw), osr=g.pick(draw, 1, 2, 4, 5), span=g.i(draw, 1, 4), pulse=g.pick(draw, 'rect', 'sinc', 'rcos'), beta=g.grid_float(draw, 0.1, 0.9, 8), kind=g.pick(draw, 'pulse', 'isi_awgn', 'isi_awgn', 'awgn'), resume=g.b(draw),
                x=g.ints(draw, n, -3, 3), cuts=g.chunks(draw, n), fir=g.pick(draw, True, True, False), iir=g.b(draw), one=g.b(draw))


def check_ch(c):
    d, _, ch, _, _, _ = parts()
    x = g.expand(c['x']).astype(float)
    b_, a = list(c['t']['b']), list(c['t']['a'])
    kw = dict(rolloff=c['beta'], osr=c['osr'], snr=300 if c['kind'] == 'awgn' else None)
    if c['fir']:
        kw['fir_coefs'] = np.array(b_)
    else:
        b_ = [1.0]
    if c['iir'] and len(a) > 1:
        kw['iir_coefs'] = np.array(a)
    else:
        a = [1.0]
        if c['one']:
            kw['iir_coefs'] = 1
    obj = call(ch.Channel, call(d.ChannelData, c['pulse'], c['span'], c['kind'], **kw))
    up = np.zeros(len(x) * c['osr'])
    up[::c['osr']] = x
    want = np.convolve(up, ref_pulse(c['pulse'], grid(c['osr'], c['span']), c['beta']))[:len(up)]
    if c['kind'] == 'isi_awgn':
        want = ref_filter(b_, a, want)
    got = []
    for p in g.split(x, c['cuts']):
        got.append(np.asarray(call(obj, p.copy())))
        if c['resume']:         # another channel object that takes over the memory of this one
            obj = call(ch.Channel, call(d.ChannelData, c['pulse'], c['span'], c['kind'], ch_zi=obj.ch_zi, pulse_zi=obj.pulse_zi, **kw))
    close(np.concatenate(got), want, f"example channel {c['kind']} {c['pulse']} osr={c['osr']} b={b_} a={a} in chunks {c['cuts']}", 1e-6, 1e-6)


def gen_rx(draw):
    pre, post, nd = g.i(draw, 0, 3), g.i(draw, 0, 3), g.i(draw, 0, 3)
    n = g.size(draw, 1, 50, big=1500)
    return dict(pre=pre, post=post, nd=nd, s=g.seed(draw), x=g.floats(draw, n), cuts=g.chunks(draw, n), lev=g.pick(draw, [-1.0, 1.0], [-3.0, -1.0, 1.0, 3.0]), given=g.b(draw), later=g.b(draw), resume=g.b(draw),
                adc=dict(bits=g.i(draw, 3, 10), frac=g.i(draw, 0, 6), kind=g.pick(draw, 's', 'ss', 'u'), osr=g.pick(draw, 2, 4, 8), rate=g.pick(draw, 1, 2), phase=g.pick(draw, None, 0, 1)))


def check_rx(c):
    d, _, _, r, _, _ = parts()
    rng = np.random.default_rng(c['s'])
    L = c['pre'] + c['post'] + 1
    x = g.expand(c['x'])
    f = np.zeros(L)
    f[c['pre']] = 1
    w = np.zeros(c['nd'])
    kw = {}
    if c['given'] or c['later']:
        f, w = np.round(rng.normal(size=L), 2), np.round(rng.normal(size=c['nd']) * 0.3, 2)
    if c['given']:
        kw = dict(ffe_vec=f.copy(), dfe_vec=w.copy())
    eq = call(r.FfeDfe, call(d.FfeDfeData, c['pre'], c['post'], c['nd'], levels=np.array(c['lev']), **kw))
    if c['later']:
        call(eq.set_ffe, f.copy())
        call(eq.set_dfe, w.copy())
    want, _, _, margin = ref_eq(x, list(f), list(w) if c['nd'] else None, c['lev'])
    if margin > 1e-6:
        got = []
        for p in g.split(x, c['cuts']):
            got.append(np.asarray(call(eq, p.copy())))
            if c['resume']:
                eq = call(r.FfeDfe, call(d.FfeDfeData, c['pre'], c['post'], c['nd'], levels=np.array(c['lev']), ffe_vec=f.copy(), dfe_vec=w.copy(), zi_ffe=eq.zi_ffe, zi_dfe=eq.zi_dfe))
        close(np.concatenate(got), want, f"example FFE-DFE block {list(f)} / {list(w)} in chunks {c['cuts']}", 1e-7, 1e-9)
    q = c['adc']
    zs, ps, fs = [0.3], [0.1, 0.6, 0.9][:1 + c['pre'] % 3], 1.0
    whole = call(cdsp.rx.ctle, x.copy(), zs, ps, -3, fs, 4)
    whole = np.asarray(whole[0] if isinstance(whole, tuple) else whole)
    ct, got = call(r.Ctle, call(d.CtleData, zs, ps, -3, fs, 4)), []
    for p in g.split(x, c['cuts']):
        got.append(np.asarray(call(ct, p.copy())))
        if c['resume']:
            ct = call(r.Ctle, call(d.CtleData, zs, ps, -3, fs, 4, zi=ct.zi))
    close(np.concatenate(got), whole, f"example CTLE block {zs} / {ps} in chunks {c['cuts']}", 1e-7, 1e-9)
    ad = call(r.Adc, call(d.AdcData, q['bits'], q['frac'], q['kind'], q['osr'], q['rate'], phase=q['phase']))
    z = rng.normal(size=q['osr'] * 6) * 2.0 ** (q['bits'] - 1)
    lv = np.arange(2 ** q['bits']) - (0 if q['kind'] == 'u' else 2 ** (q['bits'] - 1))
    lv = lv[1:] if q['kind'] == 'ss' else lv
    ph = q['osr'] // 2 if q['phase'] is None else q['phase']
    sm = z[ph::q['osr'] // q['rate']]
    wadc = np.array([lv[np.argmin(np.abs(lv - v))] for v in sm]) / 2.0 ** q['frac']
    close(call(ad, z.copy()), wadc, f'example ADC {q}', 1e-12, 1e-12)


def gen_link(draw):
    c = gen_coding(draw)
    if c['bin'] in ('bipolar', 'mlt3'):
        c['bin'] = 'none'
    c.update(chunk=12 * g.i(draw, 2, 8), osr=g.pick(draw, 4, 8), span=g.i(draw, 1, 4), pulse=g.pick(draw, 'rcos', 'rect', 'sinc'), amp=g.pick(draw, 1.0, 4.0), chunks=g.i(draw, 3, 6), corner=g.pick(draw, 0.2, 0.5))
    return c


def check_link(c):
    """A clean channel and a flat CTLE: the receiver's symbol decisions are the transmitted symbols, some whole symbols later."""
    d, _, _, _, fl, an = parts()
    cd, k = call(coding_data, dict(c, bin='none', bdiff=False, sdiff=False))
    pd = call(d.PrbsData, cdsp.PrbsEnum(c['order']), c['chunk'])
    lv = np.array(LEVELS[k], float)
    md = call(d.MappingData, con(k), lv.copy(), c['amp'], lv.max())
    fs = 1e9
    link = call(fl.FullLink, d.FullLinkData(pd, cd, md, d.ChannelData(c['pulse'], c['span'], 'isi_awgn', fir_coefs=np.array([2 / c['amp'] * lv.max()]), rolloff=0.4, osr=c['osr'], snr=200),
                                            d.CtleData([c['corner'] * fs], [c['corner'] * fs], 0, fs, c['osr']), d.AdcData(12, 0, 's', c['osr'], 1, phase=0),
                                            d.FfeDfeData(0, 0, 0, ffe_vec=np.array([1.0]))))
    sent, dec, bits, out = [], [], [], []
    for _ in range(c['chunks']):
        out.append(np.asarray(call(link)))
        sent.append(np.asarray(link.Tx.encoded_prbs_chunk))
        dec.append(np.asarray(link.Rx.demapped_chunk))
        bits.append(np.asarray(link.Tx.prbs_chunk))
    sent, dec, bits, out = map(np.concatenate, (sent, dec, bits, out))
    D = c['span']
    same(dec[D:], sent[:len(sent) - D], f'example full link {k} {c["pulse"]} osr={c["osr"]} span={D}: received symbols, delayed by the pulse span')
    b_ = 2 if k == 'PAM4' else 1
    same(out[b_ * D:], bits[:len(bits) - b_ * D], f'example full link {k}: received bits')


def gen_adapt(draw):
    return dict(con=g.pick(draw, 'NRZ', 'PAM4'), chunk=2 * g.i(draw, 12, 60), order=g.pick(draw, 7, 9, 13), osr=g.pick(draw, 4, 8, 16), span=g.i(draw, 1, 4), pulse=g.pick(draw, 'rcos', 'rcos', 'sinc', 'rect'),
                pre=g.i(draw, 0, 3), post=g.i(draw, 0, 4), nd=g.i(draw, 1, 3), isi=[g.i(draw, -4, 4) / 10 for _ in range(g.i(draw, 0, 2))], snr=g.pick(draw, 20, 40, 200), phase=g.pick(draw, None, 0, 1, 3),
                warm=g.i(draw, 1, 3), run=g.i(draw, 1, 25), sim=g.b(draw), again=[g.i(draw, 1, 25) for _ in range(g.pick(draw, 0, 0, 1, 2))])


RECORD = ('tx_prbs_chunks', 'tx_encoded_prbs_chunks', 'tx_mapped_prbs_chunks', 'ch_out_chunks', 'rx_ctle_out_chunks', 'rx_adc_out_chunks', 'rx_slicer_in_chunks', 'rx_slicer_out_chunks',
          'rx_demapped_chunks', 'rx_decoded_chunks', 'cdr_phase_vec', 'lms_mse_vec', 'lms_ffe_vecs', 'lms_dfe_vecs')


def check_adapt(c):
    """Clock and equaliser adaptation, chunk by chunk, against the states recorded between the chunks."""
    d, _, _, _, fl, _ = parts()
    from example_simulation.simulation_parts.simulation import Simulation
    k, osr = c['con'], c['osr']
    lv = np.array(LEVELS[k], float)
    fs = 1e9
    cd = call(d.CodingData, len(lv) // 2, con(k), c['chunk'])
    h = np.zeros(1 + len(c['isi']) * osr)
    h[0], h[osr::osr] = 1, c['isi']
    data = d.FullLinkData(call(d.PrbsData, cdsp.PrbsEnum(c['order']), c['chunk']), cd, call(d.MappingData, con(k), lv.copy(), 60.0, 1.0),
                          d.ChannelData(c['pulse'], c['span'], 'isi_awgn', fir_coefs=h, rolloff=0.4, osr=osr, snr=c['snr']), d.CtleData([0.3 * fs], [0.3 * fs], 0, fs, osr),
                          d.AdcData(8, 5, 'ss', osr, 1, phase=c['phase']), d.FfeDfeData(c['pre'], c['post'], c['nd'], levels=lv / lv.max()))
    sim = call(Simulation, data)
    link = sim.Link
    rx = link.Rx
    for _ in range(c['warm']):
        call(link)
    what = f'example receiver adapting, {c}'
    state = lambda: dict(phase=int(rx.phase), gain=float(rx.dig_gain), ffe=np.array(rx.ffe_dfe.ffe_vec), dfe=np.array(rx.ffe_dfe.dfe_vec), mse=float(rx.lms_mse_last),
                         on=bool(rx.converge), cdr=bool(rx.converge_cdr), lms=bool(rx.converge_lms), done=bool(rx.converge_done), adc=np.array(rx.adc_out))
    s = state()
    expect(not (s['on'] or s['done']) and s['gain'] == 1 and s['phase'] == (osr // 2 if c['phase'] is None else c['phase']), f'{what}: adapts before it is told to: {s}')
    call(link.start_convergence)
    seen = []
    for q in range(c['run']):
        if q in c.get('again', ()):
            call(link.start_convergence)
        s = state()
        if q in c.get('again', ()):
            expect(s['on'] and s['cdr'] and s['lms'] and not s['done'], f'{what}: convergence started again before chunk {q}: on={s["on"]} clock={s["cdr"]} equaliser={s["lms"]} done={s["done"]}')
        call(link)
        call(sim.gather_memory)
        n = state()
        seen.append([np.array(v) for v in (link.Tx.prbs_chunk, link.Tx.encoded_prbs_chunk, link.Tx.mapped_prbs_chunk, link.Ch.ch_out, rx.ctle_out, rx.adc_out, rx.slicer_in, rx.slicer_out,
                                           rx.demapped_chunk, rx.decoded_chunk, n['phase'], n['mse'], n['ffe'], n['dfe'])])
        w = f'{what}: chunk {q}'
        raw = np.round(np.clip(np.asarray(rx.ctle_out)[s['phase']::osr], -127.4, 127.4)) / 32
        expect(np.all(np.abs(n['adc'] - raw) <= 1 / 32 + 1e-12), f'{w}: ADC does not sample at the phase {s["phase"]}')
        if not s['on']:
            expect(n['phase'] == s['phase'] and n['gain'] == s['gain'] and np.array_equal(n['ffe'], s['ffe']) and np.array_equal(n['dfe'], s['dfe']) and not n['on'] and n['done'] == s['done'], f'{w}: changes after convergence')
            continue
        P = c['pre']
        vec = np.concatenate([s['adc'], n['adc']])[len(s['adc']) - P:len(s['adc']) + len(n['adc']) - P]
        so, si = np.asarray(rx.slicer_out), np.asarray(rx.slicer_in)
        step, sure = 0, True
        if s['cdr']:
            v = float(np.dot(so[:-1], vec[1:]) - np.dot(so[1:], vec[:-1])) / (len(so) - 1)
            step, sure = (0 if abs(v) < 1e-3 else int(np.sign(v))), abs(abs(v) - 1e-3) > 1e-9
        if sure:
            expect(n['phase'] == (s['phase'] + step) % osr, f'{w}: phase {s["phase"]} -> {n["phase"]}, timing step {step}')
            expect(n['cdr'] == (s['cdr'] and step != 0), f'{w}: clock recovery {"on" if n["cdr"] else "off"} after step {step}')
        lim = np.mean((lv / lv.max()) ** 2)
        expect(abs(n['gain'] - (s['gain'] + 100 * rx.lms_lr * (lim - np.mean(si ** 2)))) < 1e-9 * (1 + np.mean(si ** 2)), f'{w}: gain {s["gain"]} -> {n["gain"]}')
        if s['lms']:
            L, ok = lv / lv.max(), []
            for gain in (n['gain'], s['gain'], 1.0):            # whichever gain the error is taken at
                o = gain * si
                dec = L[np.argmin(np.abs(o[:, None] - L[None, :]), axis=1)]
                gf, gd = lms_grads(dict(n=len(o), ffe=range(-P, c['post'] + 1), dfe=range(1, c['nd'] + 1)), vec, dec, o - dec)
                ok.append(np.allclose(n['ffe'], s['ffe'] - rx.lms_lr * gf, 1e-9, 1e-12) and np.allclose(n['dfe'], s['dfe'] - rx.lms_lr * gd, 1e-9, 1e-12)
                          and abs(n['mse'] - np.mean((o - dec) ** 2)) <= 1e-9 * (1 + n['mse']))
            expect(any(ok), f'{w}: taps {s["ffe"]}/{s["dfe"]} -> {n["ffe"]}/{n["dfe"]}, MSE {n["mse"]}: not a step against the LMS gradient')
            dm = abs(n['mse'] - s['mse'])
            expect(n['mse'] >= 0, f'{w}: MSE {n["mse"]}')
            if abs(dm - 0.01) > 1e-9:
                expect(n['lms'] == (dm >= 0.01), f'{w}: equaliser adaptation {"on" if n["lms"] else "off"} when the MSE changed by {dm}')
        else:
            expect(np.array_equal(n['ffe'], s['ffe']) and np.array_equal(n['dfe'], s['dfe']) and not n['lms'], f'{w}: taps change although their adaptation has finished')
        over = not n['cdr'] and not n['lms']
        expect(n['done'] == over and n['on'] == (not over), f'{w}: convergence flags on={n["on"]} done={n["done"]}, clock {n["cdr"]}, equaliser {n["lms"]}')
    m = sim.Memory
    expect(len(m.cdr_phase_vec) == len(m.rx_slicer_in_chunks) == len(m.lms_ffe_vecs) == c['run'], f'{what}: {len(m.cdr_phase_vec)} recorded chunks of {c["run"]}')
    for name, k in zip(RECORD, range(len(RECORD))):
        rec = getattr(m, name)
        expect(len(rec) == c['run'] and all(np.array_equal(np.asarray(rec[q]), seen[q][k]) for q in range(c['run'])), f'{what}: the record {name} is not what passed in each of the {c["run"]} chunks')
    call(m.reset)
    expect(len(m.cdr_phase_vec) == 0 and len(m.tx_prbs_chunks) == 0, f'{what}: memory after a reset')


def gen_ber(draw):
    return dict(order=g.pick(draw, 7, 9), shift=g.i(draw, 0, 500), lens=[g.i(draw, 100, 300) for _ in range(g.i(draw, 1, 4))], errs=[g.i(draw, 0, 3) for _ in range(4)], s=g.seed(draw))


def check_ber(c):
    d, _, _, _, _, an = parts()
    P = 2 ** c['order'] - 1
    ref = np.asarray(ref_prbs(POLY[c['order']], [1] * c['order'], P)[0])
    ck = call(an.Checker, call(d.PrbsData, cdsp.PrbsEnum(c['order']), 10))
    r = np.random.default_rng(c['s'])
    pos, tot, n = c['shift'], 0, 0
    for L, e in zip(c['lens'], c['errs']):
        if L < P and c['order'] == 9:
            L = P
        x = ref[(pos + np.arange(L)) % P].copy()
        hit = r.choice(L, e, replace=False)
        x[hit] ^= 1
        pos += L
        ber = float(call(ck.check_ber, x))
        tot, n = tot + e, n + L
        expect(abs(ber - e / L) < 1e-12, f'example bit checker: BER {ber} for {e} errors in {L} bits')
        expect(int(ck.acc_errors) == tot and int(ck.acc_symbols) == n, f'example bit checker: totals {ck.acc_errors}/{ck.acc_symbols}, expected {tot}/{n}')


PROP = Prop('C28', [
    Sub('coding', gen_coding, check_coding, 3000, 30000, big=32, nontrivial=lambda c: c['bin'] != 'none' or c['bdiff'] or c['sdiff'] or c['gray'], rule='Decoder inverts Encoder'),
    Sub('correction', gen_fix, check_fix, 600, 8000, rule='one wrong symbol per code block is corrected'),
    Sub('transmitter', gen_tx, check_tx, 1200, 12000, big=24, rule='chunked transmitter = one PRBS stream, seeds, levels'),
    Sub('channel', gen_ch, check_ch, 2000, 20000, big=24, nontrivial=lambda c: len(c['cuts']) > 0, rule='chunked channel = one pass'),
    Sub('receiver', gen_rx, check_rx, 2000, 20000, big=24, rule='chunked equaliser, ADC sampling and quantisation'),
    Sub('link', gen_link, check_link, 600, 6000, big=16, rule='FullLink over a clean channel returns the sent symbols and bits'),
    Sub('adaptation', gen_adapt, check_adapt, 500, 6000, nontrivial=lambda c: c['run'] > 3, rule='clock phase, gain, stop conditions and recorded history of the adapting receiver'),
    Sub('checker', gen_ber, check_ber, 400, 4000, rule='bit-error counts and totals'),
], rule='coding configurations, chunk sizes, pulses, channels, equalisers and converters drawn; oracle: bits in = bits out, independent models of PRBS, mapping, pulse '
        'shaping, filtering, equalisation and quantisation over the whole stream, planted error counts. Non-trivial: a coding stage / several chunks.',
    assumptions=['codes with memory are started afresh in every chunk, as the example does', 'noise-free channels'])
