"""Driver side: make calls on the real code and record them as events.

An event is {"id","op","key","in":{...},"out":{...}}; floats are written as
exact hexadecimal strings so that the specification receives them unrounded.
"""
import json
import os
import sys
import numbers
import warnings

import numpy as np

warnings.simplefilter("ignore")


def num(x):
    """Exact text of one number: an int32, or 'hex', 'hex;hex' (re;im), 'n'."""
    if isinstance(x, (bool, np.bool_)):
        return int(x)
    if isinstance(x, (numbers.Integral, np.integer)):
        x = int(x)
        return x if abs(x) < 2**31 else str(x)
    if isinstance(x, (complex, np.complexfloating)):
        x = complex(x)
        if x.imag == 0:
            return float(x.real).hex()
        return float(x.real).hex() + ";" + float(x.imag).hex()
    if isinstance(x, (numbers.Real, np.floating)):
        return float(x).hex()
    try:
        c = complex(x)  # sympy and similar
        return num(c)
    except Exception:  # pragma: no cover
        return "nan"


def enc(x):
    if isinstance(x, (bool, np.bool_)):
        return bool(x)
    if isinstance(x, np.ndarray):
        if x.dtype == bool:
            x = x.astype(int)
        if x.ndim == 0:
            return num(x.item())
        return [enc(y) for y in x]
    if isinstance(x, (list, tuple)):
        return [enc(y) for y in x]
    if isinstance(x, dict):
        return {str(k): enc(v) for k, v in x.items()}
    if isinstance(x, str):
        return x
    if x is None:
        return "none"
    return num(x)


def enc_out(v):
    if v is None:
        return {"st": "ok", "kind": "none", "shape": [], "v": "none"}
    if isinstance(v, (bool, np.bool_)):
        return {"st": "ok", "kind": "bool", "shape": [], "v": bool(v)}
    if isinstance(v, str):
        return {"st": "ok", "kind": "str", "shape": [], "v": v}
    if isinstance(v, (tuple, list)) and any(isinstance(y, (np.ndarray, tuple, list, bool, np.bool_, str, type(None))) for y in v):
        return {"st": "ok", "kind": "tuple", "shape": [len(v)], "v": [enc_out(y) for y in v]}
    a = np.asarray(v)
    if a.dtype == object:
        try:
            a = a.astype(complex)
        except Exception:
            return {"st": "ok", "kind": "other", "shape": [], "v": repr(type(v))}
    return {"st": "ok", "kind": a.dtype.kind, "shape": list(a.shape), "v": enc(a)}


class Rec:
    def __init__(self, path, prop, job, seed, tier, scen):
        self.f = open(path, "w")
        self.now = open(path + ".now", "w")
        self.prop, self.job, self.seed, self.tier = prop, job, seed, tier
        self.quick = tier == "quick"
        self.scen = scen
        self.n = 0
        import zlib

        self.rng = np.random.default_rng([seed, zlib.crc32((prop + job).encode())])

    def begin(self, op, key, inp):
        self.now.seek(0)
        self.now.truncate()
        self.now.write(json.dumps({"op": op, "key": key, "in": inp}))
        self.now.flush()

    def emit(self, op, key, inp, out):
        self.n += 1
        e = {"id": f"{self.job}-{self.n}", "op": op, "key": key, "in": inp, "out": out}
        self.f.write(json.dumps(e) + "\n")
        return e

    def call(self, op, key, inp, fn, post=None):
        """Run fn(), record its result (or exception) under inp.  post maps the
        result to what is recorded (a projection of the returned value)."""
        inp = enc(inp)
        self.begin(op, key, inp)
        res = None
        try:
            res = fn()
            out = enc_out(post(res) if post else res)
        except Exception as ex:  # pylint: disable=broad-except
            out = {"st": "exc", "kind": type(ex).__name__, "shape": [], "v": str(ex)[:200]}
        self.emit(op, key, inp, out)
        return res

    def close(self):
        self.f.close()
        self.now.close()
        os.unlink(self.now.name)


# ---------------------------------------------------------------- generators

def rmat(rng, n, m, kind):
    """random n x m matrix of a dtype kind, entries of moderate size"""
    if kind == "int":
        return rng.integers(-3, 4, size=(n, m))
    if kind == "posint":
        return rng.integers(0, 4, size=(n, m))
    if kind == "f32":
        return rng.normal(size=(n, m)).astype(np.float32)
    if kind == "c64":
        return (rng.normal(size=(n, m)) + 1j * rng.normal(size=(n, m))).astype(np.complex64)
    if kind == "complex":
        return rng.normal(size=(n, m)) + 1j * rng.normal(size=(n, m))
    if kind == "imag":
        return 1j * rng.normal(size=(n, m))
    return rng.normal(size=(n, m))


def sym(a):
    return np.tril(a) + np.tril(a, -1).T


def layout(a, how):
    """the same matrix/vector in another memory layout"""
    a = np.array(a)
    if how == "F":
        return np.asfortranarray(a)
    if how == "strided":
        big = np.zeros(tuple(2 * s + 1 for s in a.shape), dtype=a.dtype)
        sl = tuple(slice(1, 2 * s + 1, 2) for s in a.shape)
        big[sl] = a
        return big[sl]
    if how == "rev":
        sl = tuple(slice(None, None, -1) for _ in a.shape)
        return np.ascontiguousarray(a[sl])[sl]
    if how == "ro":
        a.setflags(write=False)
        return a
    return np.ascontiguousarray(a)


def haar(rng, n, real=False):
    z = rng.normal(size=(n, n))
    if not real:
        z = z + 1j * rng.normal(size=(n, n))
    q, r = np.linalg.qr(z)
    d = np.diag(r)
    return q * (d / np.abs(d))


def usymp(U):
    """symplectic (xxpp) of a unitary"""
    return np.block([[U.real, -U.imag], [U.imag, U.real]])


def gauss(rng, n, hbar=2.0, pure=False, smax=0.8, disp=True, thermal=0.5, sq=None):
    """A random Gaussian state built independently of the code under test."""
    r = rng.uniform(-smax, smax, size=n) if sq is None else np.asarray(sq, float)
    S = usymp(haar(rng, n)) @ np.diag(np.concatenate([np.exp(-r), np.exp(r)])) @ usymp(haar(rng, n))
    nu = np.ones(n) if pure else 1 + rng.uniform(0, thermal, size=n)
    V = hbar / 2 * S @ np.diag(np.concatenate([nu, nu])) @ S.T
    V = (V + V.T) / 2
    mu = rng.normal(size=2 * n) * 0.7 * np.sqrt(hbar / 2) if disp else np.zeros(2 * n)
    return mu, V


def main(mod):
    prop, job, seed, tier, out = sys.argv[1:6]
    scen = {}
    d = os.path.dirname(out)
    for g in mod.META.get("gen", []):
        p = os.path.join(d, f"{g}.ndjson")
        scen[g] = [json.loads(l) for l in open(p)]
    R = Rec(out, prop, job, int(seed), tier, scen)
    mod.JOBS[job](R)
    R.close()
