"""Scripted randomness: replaces the numpy.random draws a sampler makes by
given normal variates and chosen outcomes, and records the probability vectors
it hands to numpy.random.choice."""
import numpy as np


class Script:
    """normals: iterable of variates used in order (then zeros if zero_fill, else
    real draws); pick(t, p): the index of the outcome of the t-th choice."""

    def __init__(self, normals=(), pick=None, zero_fill=False):
        self.z = np.asarray(list(normals), float)
        self.pos = 0
        self.pick = pick
        self.zero = zero_fill
        self.ps = []
        self.outs = []

    def normal(self, loc=0.0, scale=1.0, size=None):
        shape = np.broadcast(np.asarray(loc), np.asarray(scale)).shape if size is None else (tuple(size) if np.iterable(size) else (int(size),))
        k = int(np.prod(shape)) if shape else 1
        v = np.zeros(k)
        a = self.z[self.pos : self.pos + k]
        v[: len(a)] = a
        if len(a) < k and not self.zero:
            v[len(a) :] = self._real["normal"](size=k - len(a))
        self.pos += k
        v = v.reshape(shape) * scale + loc
        return v if shape else float(v)

    def standard_normal(self, size=None):
        return self.normal(size=size)

    def randn(self, *s):
        return self.normal(size=s if s else None)

    def choice(self, a, size=None, replace=True, p=None):
        if p is None or size is not None:
            return self._real["choice"](a, size=size, replace=replace, p=p)
        a = np.arange(a) if np.ndim(a) == 0 else np.asarray(a)
        p = np.asarray(p, float)
        # the validation numpy itself makes
        if p.shape != a.shape[:1] or np.isnan(p).any() or (p < 0).any() or abs(p.sum() - 1) > 1e-8:
            raise ValueError("invalid probabilities given to the random choice: " + repr(p.tolist())[:120])
        t = len(self.ps)
        i = int(self.pick(t, p))
        self.ps.append(p.copy())
        self.outs.append(int(a[i]))
        return a[i]

    def __enter__(self):
        names = ("normal", "standard_normal", "randn", "choice")
        self._real = {n: getattr(np.random, n) for n in names}
        for n in names:
            setattr(np.random, n, getattr(self, n))
        return self

    def __exit__(self, *a):
        for n, f in self._real.items():
            setattr(np.random, n, f)
        return False
