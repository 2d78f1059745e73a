"""C26: random matrices."""
import numpy as np
from harness import *
from c20 import key
from c26_meta import META


def seed(R, x):
    import zlib

    np.random.seed(zlib.crc32((key(x) + str(R.seed)).encode()))


def passive(R):
    import thewalrus.random as r

    for x in R.scen["Gen_C26"]:
        n = x["n"]
        if x["op"] == "interferometer":
            seed(R, x)
            R.call("interferometer", key(x), {"n": n, "real": x["real"]}, lambda: r.random_interferometer(n, real=bool(x["real"])))
        if x["op"] == "default":
            seed(R, x)
            f, a = {
                "interferometer": ("interferometer", {"real": 0}), "symplectic": ("symplectic", {"passive": 0, "block": 0, "scale": 1}),
                "covariance": ("covariance", {"pure": 0, "block": 0, "h": 2}), "block": ("block", {"top": 1, "real": 0}), "banded": ("banded", {"w": 1, "top": 1, "real": 0}),
            }[x["f"]]
            g = getattr(r, {"block": "random_block_interferometer", "banded": "random_banded_interferometer"}.get(f, "random_" + f))
            R.call(f, key(x), {"n": n, **a}, lambda: g(n, 1) if f == "banded" else g(n))
        if x["op"] == "same":
            g = {
                "interferometer": lambda: r.random_interferometer(n), "symplectic": lambda: r.random_symplectic(n), "covariance": lambda: r.random_covariance(n),
                "block": lambda: r.random_block_interferometer(n), "banded": lambda: r.random_banded_interferometer(n, 2),
            }[x["f"]]

            def two():
                seed(R, x)
                a = g()
                c = g()
                seed(R, x)
                return a, g(), c

            R.call("same", key(x), {"n": n}, two)


def active(R):
    import thewalrus.random as r

    for x in R.scen["Gen_C26"]:
        n = x["n"]
        if x["op"] == "symplectic":
            seed(R, x)
            s = float(x["scale"])
            kw = {} if s == 1 else {"scale": s}
            R.call("symplectic", key(x), {"n": n, "passive": x["passive"], "block": x["block"], "scale": s}, lambda: r.random_symplectic(n, passive=bool(x["passive"]), block_diag=bool(x["block"]), **kw))
            if s == 2 and not x["passive"]:
                def pair():
                    seed(R, x)
                    a = r.random_symplectic(n, block_diag=bool(x["block"]))
                    seed(R, x)
                    return np.log(np.linalg.svd(a, compute_uv=False)[:n]), np.log(np.linalg.svd(r.random_symplectic(n, block_diag=bool(x["block"]), scale=0.25), compute_uv=False)[:n])

                R.call("scaling", key(x), {"n": n, "f": 0.25}, pair)
        if x["op"] == "covariance":
            seed(R, x)
            h = float(x["h"])
            kw = {} if h == 2 else {"hbar": h}
            R.call("covariance", key(x), {"n": n, "pure": x["pure"], "block": x["block"], "h": h}, lambda: r.random_covariance(n, pure=bool(x["pure"]), block_diag=bool(x["block"]), **kw))
            if h != 2:
                def pair():
                    seed(R, x)
                    a = r.random_covariance(n, pure=bool(x["pure"]), block_diag=bool(x["block"]))
                    seed(R, x)
                    return a, r.random_covariance(n, hbar=h, pure=bool(x["pure"]), block_diag=bool(x["block"]))

                R.call("covhbar", key(x), {"n": n, "h": h}, pair)


def blocks(R):
    import thewalrus.random as r

    for x in R.scen["Gen_C26"]:
        n = x["n"]
        if x["op"] == "block":
            seed(R, x)
            R.call("block", key(x), {"n": n, "top": x["top"], "real": x["real"]}, lambda: r.random_block_interferometer(n, top_one=bool(x["top"]), real=bool(x["real"])))
        if x["op"] == "banded":
            seed(R, x)
            R.call("banded", key(x), {"n": n, "w": x["w"], "top": x["top"], "real": x["real"]}, lambda: r.random_banded_interferometer(n, x["w"], top_one_init=bool(x["top"]), real=bool(x["real"])))


def haar_(R):
    import thewalrus.random as r

    K = 3000 if R.quick else 20000
    for x in R.scen["Gen_C26"]:
        if x["op"] != "haar":
            continue
        n, re = x["n"], bool(x["real"])
        if (x["via"] == "block" and n != 2) or (x["via"] == "banded" and n != 3):
            continue
        f = {
            "interferometer": lambda: r.random_interferometer(n, real=re),
            "block": lambda: r.random_block_interferometer(2, top_one=False, real=re),
            "banded": lambda: r.random_banded_interferometer(3, 2, real=re),
            "symplectic": lambda: (lambda S: S[:n, :n] + 1j * S[n:, :n])(r.random_symplectic(n, passive=True, block_diag=re)),
        }[x["via"]]

        def run():
            seed(R, x)
            U = np.array([f() for _ in range(K)])
            st = [U[:, 0, 0], np.abs(U[:, 0, 0]) ** 2, np.abs(U[:, n - 1, 0]) ** 4, np.trace(U, axis1=1, axis2=2), np.abs(np.trace(U, axis1=1, axis2=2)) ** 2, U[:, n - 1, n - 1] ** 2, np.linalg.det(U)]
            if n > 1:
                st += [U[:, 0, 0] * U[:, 1, 1] * np.conj(U[:, 0, 1] * U[:, 1, 0]), U[:, 0, 0] * U[:, 1, 1]]
            return np.array([s.mean() for s in st]), np.array([s.std() for s in st])

        R.call("haar", key(x), {"n": n, "real": x["real"], "K": K}, run)


JOBS = {"passive": passive, "active": active, "blocks": blocks, "haar": haar_}

if __name__ == "__main__":
    import c26

    main(c26)
