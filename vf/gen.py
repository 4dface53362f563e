"""Generators shared by the properties.  Every drawn case is plain JSON; arrays are 'specs'.

An array spec is {"v": [...]} (explicit, shrinks element by element) or
{"seed": s, "n": n, ...} (expanded with numpy's default_rng, shrinks in n and seed).
"""
import numpy as np
from hypothesis import strategies as st

EXPLICIT_MAX = 24


class Plain:
    """Independent draws, recorded as a choice sequence (0 is the simplest choice of each draw).

    Hypothesis mutates and repeats parts of earlier examples, which is good at nasty values and poor at covering
    combinations evenly; half of the search therefore draws every choice independently.  A failing choice sequence is
    replayed with smaller choices to shrink it."""

    def __init__(self, rng=None, choices=()):
        self.rng, self.given, self.made = rng, list(choices), []

    def choose(self, k, hint=None):
        if self.rng is not None:
            v = hint if hint is not None else self.rng.randrange(k)
        else:
            v = min(self.given[len(self.made)], k - 1) if len(self.made) < len(self.given) else 0
        self.made.append(v)
        return v

    def int(self, lo, hi):
        m = min(hi, -lo) if lo < 0 < hi else 0
        hint = None
        if self.rng is not None and hi > lo + 3 and self.rng.random() < 0.06:
            v = self.rng.choice((lo, hi))
            hint = v - lo if lo >= 0 else hi - v if hi <= 0 else (2 * abs(v) - (v > 0) if abs(v) <= m else abs(v) + m)
        k = self.choose(hi - lo + 1, hint)
        if lo >= 0:
            return lo + k
        if hi <= 0:
            return hi - k
        if k <= 2 * m:
            return (k + 1) // 2 if k % 2 else -(k // 2)
        return k - m if hi > -lo else m - k

    def float(self, lo, hi):
        kind = self.choose(6)
        if kind == 0 and int(np.ceil(lo)) <= int(np.floor(hi)):
            return float(self.int(int(np.ceil(lo)), int(np.floor(hi))))
        if kind == 1 and lo <= 0 <= hi:
            v = 10.0 ** -self.int(1, 12)
            return v if v <= hi else 0.0
        return min(hi, max(lo, lo + (hi - lo) * self.choose(2 ** 40) / 2 ** 40))

    def list(self, lo, hi, n, unique):
        if not unique:
            return [self.int(lo, hi) for _ in range(n)]
        pool = list(range(lo, hi + 1)) if hi - lo < 5000 else None
        out = []
        while len(out) < n:
            if pool is not None:
                out.append(pool.pop(self.choose(len(pool))))
            else:
                v = self.int(lo, hi)
                while v in out:
                    v = v + 1 if v < hi else lo
                out.append(v)
        return out


def i(draw, lo, hi):
    return draw.int(lo, hi) if isinstance(draw, Plain) else draw(st.integers(lo, hi))


def b(draw):
    return draw.choose(2) == 1 if isinstance(draw, Plain) else draw(st.booleans())


def pick(draw, *xs):
    if len(xs) == 1 and isinstance(xs[0], (list, tuple)):
        xs = xs[0]
    return xs[draw.choose(len(xs))] if isinstance(draw, Plain) else draw(st.sampled_from(list(xs)))


def some(draw, lo, hi, n, unique=False):
    """n integers in [lo, hi]."""
    return draw.list(lo, hi, n, unique) if isinstance(draw, Plain) else draw(st.lists(st.integers(lo, hi), min_size=n, max_size=n, unique=unique))


def real(draw, lo, hi, width=64):
    return draw.float(lo, hi) if isinstance(draw, Plain) else draw(st.floats(lo, hi, allow_nan=False, allow_infinity=False, width=width))


_LARGE = False      # set by the runner for the 'big' shards: size(..., big=B) then draws beyond its usual range


def large():
    return _LARGE


def set_large(on):
    global _LARGE
    _LARGE = on


def size(draw, lo, hi, around=(), big=None):
    """A length in [lo, hi]: mostly small, often at or next to a power of two or a given landmark.

    In a 'big' shard a length in [hi, big], roughly log-uniform (powers of two and decades +-2 included)."""
    if _LARGE and big is not None and big > hi and i(draw, 0, 4):       # now and then an ordinary size, next to other large ones
        marks = [m for m in [2 ** k for k in range(1, 24)] + [10 ** k for k in range(1, 7)] if hi <= m <= big]
        if marks and i(draw, 0, 2) == 0:
            return int(max(lo, pick(draw, marks) + i(draw, -2, 2)))
        steps = int(round(8 * float(np.log2(big / hi))))
        base = hi * 2.0 ** (i(draw, 0, steps) / 8)
        return int(min(big, max(lo, base + i(draw, -40, 40))))
    kind = i(draw, 0, 9)
    if kind <= 3 or hi - lo < 8:
        return i(draw, lo, min(hi, lo + 24))
    marks = [m for m in list(around) + [2 ** k for k in range(1, 24)] if lo <= m <= hi]
    if kind <= 6 and marks:
        m = pick(draw, marks)
        return int(min(hi, max(lo, m + i(draw, -2, 2))))
    return i(draw, lo, hi)


def seed(draw):
    return i(draw, 0, 2 ** 31 - 1)


def ints(draw, n, lo, hi, styles=('uniform', 'const', 'runs', 'alt', 'sparse', 'dense')):
    if n <= EXPLICIT_MAX and i(draw, 0, 9) < 8:
        return {'v': some(draw, lo, hi, n)}
    return {'seed': seed(draw), 'n': n, 'lo': lo, 'hi': hi, 'style': pick(draw, 'uniform', 'uniform', *styles)}


def floats(draw, n, scale=4.0, styles=('normal', 'normal', 'uniform', 'grid', 'const', 'impulse', 'sine', 'mixed')):
    if n <= 12 and i(draw, 0, 9) < 5:
        return {'v': [i(draw, -8, 8) / 2.0 if b(draw) else float(real(draw, -scale, scale, 32)) for _ in range(n)]}
    return {'fseed': seed(draw), 'n': n, 'scale': scale, 'style': pick(draw, *styles)}


def expand(spec):
    if 'v' in spec:
        a = np.array(spec['v'])
        return a
    n = spec['n']
    if 'fseed' in spec:
        r = np.random.default_rng(spec['fseed'])
        sc, style = spec['scale'], spec['style']
        if style == 'normal':
            return r.normal(size=n) * sc / 3
        if style == 'uniform':
            return r.uniform(-sc, sc, n)
        if style == 'grid':
            return r.integers(-8, 9, n) * (sc / 8)
        if style == 'const':
            return np.full(n, r.uniform(-sc, sc))
        if style == 'impulse':
            a = np.zeros(n)
            a[int(r.integers(n))] = sc
            return a
        if style == 'sine':
            return sc * np.sin(2 * np.pi * r.uniform(0.001, 0.5) * np.arange(n) + r.uniform(0, 6))
        a = r.normal(size=n) * sc
        a[r.random(n) < 0.5] = 0
        return a
    r = np.random.default_rng(spec['seed'])
    lo, hi, style = spec['lo'], spec['hi'], spec['style']
    u = r.integers(lo, hi + 1, n)
    if style == 'const':
        return np.full(n, int(r.integers(lo, hi + 1)))
    if style == 'runs':
        keep = r.random(n) < 0.15
        if n:
            keep[0] = True
        idx = np.maximum.accumulate(np.where(keep, np.arange(n), 0))
        return u[idx] if n else u
    if style == 'alt':
        p = int(r.integers(1, 5))
        return np.tile(u[:p] if n >= p else u, n // p + 2)[:n] if n else u
    if style == 'sparse':
        return np.where(r.random(n) < 0.05, u, lo)
    if style == 'dense':
        return np.where(r.random(n) < 0.05, u, hi)
    return u


INT_DTYPES = ('int64', 'int64', 'int32', 'int16', 'int8')


def dtype(draw, options=INT_DTYPES):
    return pick(draw, *options)


def layout(draw):
    return pick(draw, 'c', 'c', 'strided', 'reversed', 'offset')


def lay(a, kind):
    """The same values in another memory layout (1-D or 2-D)."""
    a = np.asarray(a)
    if kind == 'strided':
        big = np.zeros(a.shape[:-1] + (a.shape[-1] * 2 + 1,), a.dtype)
        big[..., 1::2] = a
        return big[..., 1::2]
    if kind == 'reversed':
        return np.ascontiguousarray(a[..., ::-1])[..., ::-1]
    if kind == 'offset':
        big = np.zeros(a.shape[:-1] + (a.shape[-1] + 3,), a.dtype)
        big[..., 2:-1] = a
        return big[..., 2:-1]
    if kind == 'F':
        return np.asfortranarray(a)
    return a.copy()


def chunks(draw, n, max_parts=5):
    """Cut points splitting range(n) into consecutive non-empty pieces."""
    if n <= 1:
        return []
    k = i(draw, 0, min(max_parts, n) - 1)
    kind = i(draw, 0, 3)
    if kind == 0:
        cuts = list(range(1, min(n, k + 1)))
    else:
        cuts = some(draw, 1, n - 1, k, True)
    return sorted(int(c) for c in cuts)


def split(a, cuts):
    out, p = [], 0
    for c in list(cuts) + [len(a)]:
        out.append(a[p:c])
        p = c
    return out


def grid_float(draw, lo, hi, steps):
    """A float on a coarse grid (rounded decimal), or anywhere in the range."""
    if b(draw):
        k = i(draw, 0, steps)
        return round(lo + (hi - lo) * k / steps, 10)
    return float(real(draw, lo, hi))
