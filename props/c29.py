"""C29 the streaming filter objects follow their difference equation over any call history."""
import numpy as np
from vf.core import Prop, Sub, call, same, close, expect, fail
from vf import gen as g
from props.c14 import gen_taps
from props.c17 import decide, lev_spec, tap_list, PAM4


def classes():
    from CommDspy.misc import help_classes as h
    return h


class RefDF1:
    """Difference equation with explicit input and output history, newest first."""

    def __init__(self, b, a):
        self.b, self.a = b, a
        self.reset(None, None)

    def reset(self, zf, zi):
        self.x = list(zf) if zf is not None else [0.0] * len(self.b)
        self.y = list(zi) if zi is not None else [0.0] * (len(self.a) - 1)

    def step(self, v):
        self.x = [v] + self.x[:len(self.b) - 1]
        s = 0.0
        for t, u in zip(self.b, self.x):
            s += t * u
        for t, u in zip(self.a[1:], self.y):
            s -= t * u
        s /= self.a[0]
        self.y = ([s] + self.y)[:len(self.a) - 1]
        return s


class RefTII:
    """Transposed form II, written per register: s_k(n) = b_k x(n) - a_k f(n) + s_{k+1}(n-1)."""

    def __init__(self, b, a, levels=None):
        self.b, self.a, self.levels = b, a, levels
        self.n = max(len(b), len(a)) - 1
        self.margin = 1e9
        self.reset(None)

    def reset(self, z):
        self.s = list(z) if z is not None else [0.0] * self.n

    def step(self, v):
        y = (self.b[0] * v + (self.s[0] if self.n else 0.0)) / self.a[0]
        f = y
        if self.levels is not None:
            f, m = decide(self.levels, y)
            self.margin = min(self.margin, m)
        new = []
        for k in range(1, self.n + 1):
            r = self.b[k] * v if k < len(self.b) else 0.0
            r -= self.a[k] * f if k < len(self.a) else 0.0
            new.append(r + (self.s[k] if k < self.n else 0.0))
        self.s = new
        return y


def gen_hist(draw):
    kind = g.pick(draw, 'df1', 'tii', 'ffedfe')
    t = gen_taps(draw)
    if kind == 'ffedfe':
        t['a'] = [g.pick(draw, 1.0, 1.0, 2.0)] + tap_list(draw, g.pick(draw, 0, 1, 2, 4), 0.5)
    ops = []
    for _ in range(g.i(draw, 1, 6 if not g.large() else 20)):
        op = g.pick(draw, 'call', 'call', 'call', 'call', 'empty', 'zero', 'setz', 'fir', 'iir')
        n = g.size(draw, 1, 30, big=2000)
        ops.append(dict(op=op, x=g.floats(draw, n) if g.b(draw) else g.ints(draw, n, -3, 3), zs=g.seed(draw), form=g.pick(draw, 'arr', 'arr', 'list')))
    return dict(kind=kind, t=t, z0=g.pick(draw, None, None, g.seed(draw)), ops=ops, tform=g.pick(draw, 'arr', 'list'), lev=lev_spec(draw))


def mems(kind, b, a, s):
    r = np.random.default_rng(s)
    if kind == 'df1':
        return np.round(r.normal(size=len(b)), 3), np.round(r.normal(size=len(a) - 1), 3)
    return np.round(r.normal(size=max(len(a), len(b)) - 1), 3)


def check_hist(c):
    h = classes()
    b, a = list(c['t']['b']), list(c['t']['a'])
    kind = c['kind']
    lev = c['lev'] or PAM4
    tb, ta = (np.array(b), np.array(a)) if c['tform'] == 'arr' else (list(b), list(a))
    if kind == 'df1':
        ref = RefDF1(b, a)
        if c['z0'] is None:
            f = call(h.Filter, tb, ta)
        else:
            zf, zi = mems(kind, b, a, c['z0'])
            f = call(h.Filter, tb, ta, zf.copy(), zi.copy())
            ref.reset(zf, zi)
    else:
        ref = RefTII(b, a, lev if kind == 'ffedfe' else None)
        z = None if c['z0'] is None else mems(kind, b, a, c['z0'])
        args = (tb, ta) if kind == 'tii' else (tb, ta, np.array(lev))
        f = call(h.FilterTII if kind == 'tii' else h.FfeDfeFilterTII, *args, **({} if z is None else dict(z=z.copy())))
        ref.reset(z)
    what = f'{kind} filter b={b} a={a}'
    for k, op in enumerate(c['ops']):
        if op['op'] in ('fir', 'iir') and kind == 'df1':       # one memory loaded, the other left alone
            zf, zi = mems(kind, b, a, op['zs'])
            if op['op'] == 'fir':
                call(f.set_z_fir, zf)
                ref.x = list(zf)
            else:
                call(f.set_z_iir, zi)
                ref.y = list(zi)
            continue
        if op['op'] in ('zero', 'setz', 'fir', 'iir'):
            z = None if op['op'] in ('zero', 'iir') else mems(kind, b, a, op['zs'])
            if kind == 'df1':
                zf, zi = (None, None) if z is None else z
                call(f.set_z_fir, zf)
                call(f.set_z_iir, zi)
                ref.reset(zf, zi)
            else:
                call(f.set_z, z)
                ref.reset(z)
            continue
        x = g.expand(op['x']) if op['op'] == 'call' else np.zeros(0)
        want = np.array([ref.step(float(v)) for v in x])
        if getattr(ref, 'margin', 1) < 1e-6:
            return
        y = call(f, list(x) if op['form'] == 'list' and len(x) else x.copy())
        close(y, want, f'{what}: call {k} of the history', 1e-6, 1e-8)


PROP = Prop('C29', [
    Sub('history', gen_hist, check_hist, 10000, 100000, nontrivial=lambda c: sum(o['op'] == 'call' for o in c['ops']) > 1, big=32, rule='direct, transposed and decision-feedback filter objects over call/reset histories'),
], rule='filter kind, taps, initial memories and a history of chunk filtering, empty chunks, memory resets and memory loads drawn; oracle: scalar recursions with '
        'explicit registers (nearest-level decisions for the FFE-DFE). Non-trivial: at least two chunks.',
    assumptions=['stable feedback (sum of |a_k/a_0| <= 0.9)', 'decisions within 1e-6 of a threshold are skipped'])
