"""C03 mapping places symbols on the documented levels and demapping inverts it."""
import numpy as np
import CommDspy as cdsp
from vf.core import Prop, Sub, call, same, close, expect
from vf import gen as g
from props.c02 import shape2

LEVELS = {'NRZ': [-1, 1], 'OOK': [0, 1], 'PAM3': [-1, 0, 1], 'PAM4': [-3, -1, 1, 3]}


def con(name):
    return cdsp.ConstellationEnum[name]


def ref_levels(name, fs=False):
    lv = np.array(LEVELS[name], dtype=float)
    return lv / np.sqrt(np.mean(lv ** 2)) if fs else lv


# --- levels ------------------------------------------------------------------------------------
def enum_levels():
    return [dict(con=c, fs=f) for c in LEVELS for f in (False, True)]


def check_levels(c):
    lv = np.asarray(call(cdsp.get_levels, con(c['con']), full_scale=c['fs']))
    close(lv, ref_levels(c['con'], c['fs']), f"get_levels({c['con']}, full_scale={c['fs']})", rtol=1e-12, atol=1e-12)
    if not c['fs']:
        close(call(cdsp.get_levels, con(c['con'])), ref_levels(c['con']), f"get_levels({c['con']})", rtol=1e-12, atol=1e-12)
    if c['fs']:
        close(np.mean(np.asarray(lv, dtype=float) ** 2), 1.0, 'mean power of the full-scale levels', rtol=1e-12)


# --- mapping / demapping -----------------------------------------------------------------------
def gen_map(draw):
    name = g.pick(draw, *LEVELS)
    m = len(LEVELS[name])
    n = g.size(draw, 1, 4000, big=300000)
    c = dict(con=name, fs=g.b(draw), pn=g.b(draw), sym=g.ints(draw, n, 0, m - 1), shape=shape2(draw, n), dt=g.dtype(draw), lay=g.layout(draw), custom=None, keep=g.b(draw), lvt=g.pick(draw, 'float64', 'float64', 'int64', 'int16', 'int8', 'float32'))
    if g.i(draw, 0, 2) == 0:
        c['custom'] = [float(x) for x in g.some(draw, -80, 80, m)]
    return c


def check_map(c):
    sym = g.expand(c['sym']).astype(c['dt']).reshape(c['shape'])
    kw = dict(full_scale=c['fs'], pn_inv=c['pn'])
    sgn = -1.0 if c['pn'] else 1.0
    if c['custom'] is not None:
        lv = np.array(c['custom']) / 8 if 'int' not in c['lvt'] else np.array(c['custom'])
        lv = lv.astype(c['lvt'])
        out = call(cdsp.tx.mapping, g.lay(sym, c['lay']), con(c['con']), levels=lv.copy(), **kw)
        same(out, sgn * lv[sym], f"mapping to custom levels {c['custom']}, pn_inv={c['pn']}")
        return
    out = call(cdsp.tx.mapping, g.lay(sym, c['lay']), con(c['con']), **kw)
    want = sgn * ref_levels(c['con'], c['fs'])[sym]
    close(out, want, f"mapping {c['con']} {kw}", rtol=1e-12, atol=1e-12)
    if c['pn'] and c['con'] == 'OOK':
        pass
    back = call(cdsp.rx.demapping, g.lay(np.array(out) if c['keep'] else np.array(out, dtype=float), c['lay']), con(c['con']), **kw)
    same(back, sym, f"demapping(mapping(symbols)) {c['con']} {kw}")


# --- demapping tolerates distortion below half a level spacing ------------------------------------
def gen_noisy(draw):
    name = g.pick(draw, *LEVELS)
    m = len(LEVELS[name])
    n = g.size(draw, 1, 600, big=100000)
    return dict(con=name, fs=g.b(draw), pn=g.b(draw), sym=g.ints(draw, n, 0, m - 1), shape=shape2(draw, n), lay=g.layout(draw), f32=g.i(draw, 0, 4) == 0, eseed=g.seed(draw), amp=g.pick(draw, 0.05, 0.25, 0.45, 0.49))


def check_noisy(c):
    lv = ref_levels(c['con'], c['fs'])
    sym = g.expand(c['sym']).astype(int)
    err = np.random.default_rng(c['eseed']).uniform(-1, 1, len(sym)) * c['amp'] * (lv[1] - lv[0])
    # the outermost symbols only move inwards or outwards by less than half a spacing
    sig = (lv[sym] + err) * (-1.0 if c['pn'] else 1.0)
    if c['f32']:
        sig = sig.astype(np.float32)
    got = call(cdsp.rx.demapping, g.lay(sig.reshape(c['shape']), c['lay']), con(c['con']), full_scale=c['fs'], pn_inv=c['pn'])
    same(got, sym.reshape(c['shape']), f"demapping of levels with errors below half a spacing, {c['con']} full_scale={c['fs']} pn_inv={c['pn']}")


def enum_long():
    return [dict(con=n, fs=f, pn=q, sym=dict(seed=j, n=1200000 + j, lo=0, hi=len(LEVELS[n]) - 1, style='uniform'), shape=[1200000 + j], dt='int64', lay='c', custom=None, keep=True, lvt='float64')
            for j, (n, f, q) in enumerate([('PAM4', False, True), ('PAM4', True, False), ('NRZ', False, False), ('OOK', True, True), ('PAM3', False, False)])]


PROP = Prop('C03', [
    Sub('very_long', None, check_map, 0, 0, enum=enum_long, rule='more than a million symbols'),
    Sub('levels', None, check_levels, 0, 0, enum=enum_levels, rule='documented levels and unit mean power'),
    Sub('map', gen_map, check_map, 2000, 40000, nontrivial=lambda c: len(set(g.expand(c['sym']).tolist())) > 1, rule='mapping vs documented levels; demapping inverts', big=96),
    Sub('noisy', gen_noisy, check_noisy, 1000, 20000, rule='demapping of levels moved by < half a spacing', big=64),
], rule='constellation, scaling, inversion, custom level vectors, symbols, shape, dtype, layout drawn; oracle: the documented level tables and the '
        'round trip. Non-trivial: at least two different symbols.',
    assumptions=['symbols inside the constellation; sample errors below half a level spacing'])
