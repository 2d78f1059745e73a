"""C22: results depend only on arguments."""
import gc
import os
import pickle
import random
import sys
import threading
import weakref

import numpy as np
from harness import *
from c22_meta import META
from zoo import FAMS, arrays, run, zoo


def flat(v, d):
    return [y for x in v for y in flat(x, d - 1)] if d > 1 else v


def rec(v):
    """the record of a result, arrays flattened"""
    o = enc_out(v)
    if o["kind"] == "tuple":
        o["v"] = [rec(y) for y in (v if not isinstance(v, np.ndarray) else list(v))]
    elif len(o["shape"]) > 1:
        o["v"] = flat(o["v"], len(o["shape"]))
    return o


def attempt(z, args=None, kw=None):
    try:
        v = run(z, args, kw)
    except Exception as ex:  # pylint: disable=broad-except
        return None, {"st": "exc", "kind": type(ex).__name__, "shape": [], "v": ""}
    return v, rec(v)


def bases(z):
    out = []
    for a in arrays(z):
        while isinstance(a.base, np.ndarray):
            a = a.base
        out.append(a)
    return out


def snap(z):
    others = [a for a in list(z[2]) + list(z[3].values()) if not isinstance(a, np.ndarray) and not callable(a)]
    return [a.tobytes() for a in bases(z)] + [repr(others)]


def world():
    import numba

    return [repr(random.getstate()), repr(np.geterr()), repr(np.get_printoptions()), repr(sorted(os.environ.items())), sys.getrecursionlimit(), numba.get_num_threads(), sys.getswitchinterval()]


def rngstate():
    return repr(np.random.get_state()[1:3])


def leaves(v):
    if isinstance(v, np.ndarray):
        yield v
    elif isinstance(v, (list, tuple)):
        yield v
        for y in v:
            yield from leaves(y)
    elif isinstance(v, dict):
        for y in v.values():
            yield from leaves(y)


def scribble(v, z):
    """the caller does what it likes with what it was given"""
    mine = arrays(z)
    for a in list(leaves(v)):
        if isinstance(a, np.ndarray):
            if a.flags.writeable and not any(np.shares_memory(a, m) for m in mine):
                a[...] = 7
        elif isinstance(a, list) and not any(a is m for m in z[2]):
            a.append(7)


def guarded(z):
    """one call; what it returned and whether it left everything else alone"""
    a, w, s = snap(z), world(), rngstate()
    v, o = attempt(z)
    clean = [snap(z) == a, world() == w, z[4] or rngstate() == s]
    scribble(v, z)
    return o, clean


def famjob(fam):
    def job(R):
        Z = zoo(fam)
        n = len(Z)
        base = []
        for z in Z:
            R.begin("first", z[0], {})
            base.append(attempt(z)[1])
        pickle.dump(base, open(os.path.join(os.path.dirname(sys.argv[5]), fam + ".base"), "wb"))
        for x in R.scen["Gen_C22"]:
            if x["op"] == "hist" and x["i"] < n:
                i = x["i"]
                js = [(i + o) % n for o in x["off"]]
                R.begin("hist", Z[i][0], {"off": x["off"]})
                seq = [guarded(Z[k]) for k in [i] + js + [i]]
                ks = [i] + js + [i]
                R.emit("hist", Z[i][0], {"calls": [Z[k][0] for k in ks]}, {"st": "ok", "kind": "hist", "shape": [], "want": [base[k] for k in ks], "v": [s[0] for s in seq], "clean": [s[1] for s in seq]})
            if x["op"] == "layout":
                for z, b in zip(Z, base):
                    if z[4] or not arrays(z):
                        continue
                    y = (z[0], z[1], [layout(a, x["lay"]) if isinstance(a, np.ndarray) else a for a in z[2]], {k: layout(a, x["lay"]) if isinstance(a, np.ndarray) else a for k, a in z[3].items()}, z[4])
                    R.begin("layout", z[0], x)
                    o, c = guarded(y)
                    R.emit("layout", z[0], {"lay": x["lay"], "call": z[0]}, {"st": "ok", "kind": "hist", "shape": [], "want": [b], "v": [o], "clean": [c]})
            if x["op"] == "threads":
                Y = [(k, z) for k, z in enumerate(Z) if not z[4]]
                if not Y:
                    continue
                got = [{} for _ in range(x["n"])]
                before = [snap(z) for _, z in Y]
                w = world()
                sw = sys.getswitchinterval()
                sys.setswitchinterval(1e-5)
                start = threading.Barrier(x["n"])

                def work(t):
                    start.wait()
                    for r in range(2):
                        for p in range(len(Y)):
                            k, z = Y[(p + t * x["rot"]) % len(Y)]
                            got[t][(k, r)] = attempt(z)[1]

                ts = [threading.Thread(target=work, args=(t,)) for t in range(x["n"])]
                R.begin("threads", fam, x)
                [t.start() for t in ts]
                [t.join() for t in ts]
                sys.setswitchinterval(sw)
                same = world() == w
                for (k, z), s in zip(Y, before):
                    vs = [g.get((k, r), {"st": "lost", "kind": "", "shape": [], "v": ""}) for g in got for r in range(2)]
                    c = [snap(z) == s, same, True]
                    R.emit("threads", z[0], {"n": x["n"], "rot": x["rot"], "call": z[0]}, {"st": "ok", "kind": "hist", "shape": [], "want": [base[k]] * len(vs), "v": vs, "clean": [c] * len(vs)})
            if x["op"] == "workers" and fam in ("haf", "haf2", "batch", "per", "tor", "fock", "misc", "samp"):
                import numba

                old = numba.get_num_threads()
                for z, b in zip(Z, base):
                    R.begin("workers", z[0], x)
                    numba.set_num_threads(x["n"])
                    o, c = guarded(z)
                    numba.set_num_threads(old)
                    R.emit("workers", z[0], {"n": x["n"], "call": z[0]}, {"st": "ok", "kind": "hist", "shape": [], "want": [b], "v": [o], "clean": [c]})
        # the same object given twice
        for z, b in zip(Z, base):
            ar = [k for k, a in enumerate(z[2]) if isinstance(a, np.ndarray)]
            for p in ar:
                for q in ar:
                    if p < q and z[2][p].shape == z[2][q].shape and z[2][p].dtype == z[2][q].dtype and not z[4]:
                        one, two = list(z[2]), list(z[2])
                        one[q] = one[p]
                        two[q] = two[p].copy()
                        b2 = attempt((z[0], z[1], two, z[3], z[4]))[1]
                        o, c = guarded((z[0], z[1], one, z[3], z[4]))
                        R.emit("alias", z[0], {"call": z[0], "p": p, "q": q}, {"st": "ok", "kind": "hist", "shape": [], "want": [b2], "v": [o], "clean": [c]})

    return job


def cross(part):
    """all calls of all families in one process, in several orders"""

    def job(R):
        d = os.path.dirname(sys.argv[5])
        Z, base = [], []
        for f in FAMS:
            Z += zoo(f)
            base += pickle.load(open(os.path.join(d, f + ".base"), "rb"))
        n = len(Z)
        for x in R.scen["Gen_C22"]:
            if x["op"] != "cross" or x["stride"] % 2 != part:
                continue
            s = x["stride"]
            order = sorted(range(n), key=lambda k: (k * (2 * s + 1) % 31, -k))
            if part:
                order = order[::-1]
            for k in order:
                R.begin("cross", Z[k][0], x)
                o, c = guarded(Z[k])
                R.emit("cross", Z[k][0], {"stride": s, "call": Z[k][0]}, {"st": "ok", "kind": "hist", "shape": [], "want": [base[k]], "v": [o], "clean": [c]})

    return job


def opener(fn, s):
    from thewalrus import reference as r

    if fn == "part":
        return r.partitions(s)
    if fn == "singles":
        return r.partitions(s, pairs=False)
    if fn == "pairs":
        return r.partitions(s, singles=False)
    if fn == "nothing":
        return r.partitions(s, singles=False, pairs=False)
    return getattr(r, fn)(s)


def blocks(item):
    """a matching as a list of blocks"""
    if item and not isinstance(item[0], tuple):
        return [list(item)]
    return [list(b) for b in item]


def take(it, k):
    out = []
    for y in it:
        out.append(blocks(y))
        if len(out) == k:
            return out, False
    return out, True


def safely(step):
    """an exception that escapes from the code under test is an event"""

    def job(R):
        for x in R.scen["Gen_C22"]:
            try:
                step(R, x)
            except Exception as ex:  # pylint: disable=broad-except
                R.emit(x["op"], x["op"], enc(x), {"st": "exc", "kind": type(ex).__name__, "shape": [], "v": str(ex)[:200]})

    return job


@safely
def consumers(R, x):
    if x:
        if x["op"] == "cons":
            cs, got, end = {}, {}, {}
            R.begin("cons", x["fn"], x)
            for c, k in x["script"]:
                if c not in cs:
                    cs[c], got[c], end[c] = iter(opener(x["fn"], tuple(range(x["n"])))), [], False
                if not end[c]:
                    g, e = take(cs[c], k)
                    got[c] += g
                    end[c] = e
            R.emit("cons", x["fn"], enc({k: x[k] for k in ("fn", "n", "script")}), {"st": "ok", "kind": "cons", "shape": [], "v": [[got[c], end[c]] for c in sorted(cs)]})
        if x["op"] == "labels":
            R.begin("labels", x["fn"], x)
            v = [[blocks(i) for i in opener(x["fn"], tuple(range(len(x["lab"]))))], [blocks(i) for i in opener(x["fn"], tuple(x["lab"]))]]
            R.emit("labels", x["fn"], {"fn": x["fn"], "n": len(x["lab"]), "lab": x["lab"]}, {"st": "ok", "kind": "labels", "shape": [], "v": v})
        if x["op"] == "T":
            from thewalrus.reference import T

            R.call("T", "T", {"n": x["n"]}, lambda: str(T(x["n"])))
        if x["op"] == "many":
            got = [None] * x["t"]
            err = []
            from thewalrus import reference as r

            s = tuple(range(1000 * x["t"], 1000 * x["t"] + x["n"]))
            start = threading.Barrier(x["t"])

            def work(t):
                start.wait()
                try:
                    got[t] = [[[y - s[0] for y in b] for b in blocks(i)] for i in opener(x["fn"], s)]
                except Exception as ex:  # pylint: disable=broad-except
                    err.append(type(ex).__name__)

            sw = sys.getswitchinterval()
            sys.setswitchinterval(1e-6)
            ts = [threading.Thread(target=work, args=(t,)) for t in range(x["t"])]
            R.begin("many", x["fn"], x)
            [t.start() for t in ts]
            [t.join() for t in ts]
            sys.setswitchinterval(sw)
            R.emit("many", x["fn"], {"fn": x["fn"], "n": x["n"], "t": x["t"]}, {"st": "ok", "kind": "many", "shape": [], "v": [g or [] for g in got], "err": err})


FROZEN = []


class Thing:
    def __init__(self, k):
        self.k = k


@safely
def memo(R, x):
    from thewalrus.reference import memoized

    if not FROZEN:
        gc.collect()
        gc.freeze()
        FROZEN.append(1)
    if x:
        if x["op"] == "memo":
            live = weakref.WeakSet()
            calls = []

            def plain(k, plus=0):
                calls.append(k)
                t = Thing(k + plus)
                live.add(t)
                return t

            def gene(k, plus=0):
                calls.append(k)
                for i in range(3):
                    t = Thing(10 * (k + plus) + i)
                    live.add(t)
                    yield t

            f = memoized(gene if x["gen"] else plain, maxsize=x["limit"])
            log = []
            R.begin("memo", "memo", x)
            for k in x["acc"]:
                r = [t.k for t in f(k)] if x["gen"] else [f(k).k]
                c1 = len(calls)
                r2 = [t.k for t in f(k)] if x["gen"] else [f(k).k]
                c2 = len(calls)
                r3 = [t.k for t in f(k, plus=1)] if x["gen"] else [f(k, plus=1).k]
                gc.collect()
                log.append([k, r, r2, r3, c2 - c1, len(live)])
            R.emit("memo", "memo", {"limit": x["limit"], "acc": x["acc"], "gen": x["gen"]}, {"st": "ok", "kind": "memo", "shape": [], "v": log})
        if x["op"] == "fault":
            state = {"left": 1}
            err = {"ValueError": ValueError, "KeyboardInterrupt": KeyboardInterrupt}[x["kind"]]

            def g(n):
                for i in range(n):
                    if i == x["at"] and state["left"]:
                        state["left"] -= 1
                        raise err("injected")
                    yield i
                if n == x["at"] and state["left"]:
                    state["left"] -= 1
                    raise err("injected")

            f = memoized(g)
            R.begin("fault", "fault", x)
            it, first, raised = iter(f(x["n"])), [], "none"
            try:
                for y in it:
                    first.append(y)
                    if len(first) == x["first"]:
                        break
            except BaseException as ex:  # pylint: disable=broad-except
                raised = type(ex).__name__
            second = []
            try:
                for y in f(x["n"]):
                    second.append(y)
            except BaseException as ex:  # pylint: disable=broad-except
                second.append(type(ex).__name__)
                second = [int(y) if not isinstance(y, str) else -1 for y in second]
            third = list(f(x["n"]))
            R.emit("fault", "fault", {"at": x["at"], "n": x["n"], "first": x["first"], "kind": x["kind"]}, {"st": "ok", "kind": "fault", "shape": [], "raised": raised, "v": [first, second, third]})


JOBS = {"fam." + f: famjob(f) for f in FAMS}
JOBS.update(cross=cross(0), cross2=cross(1), consumers=consumers, memo=memo)
if __name__ == "__main__":
    main(sys.modules[__name__])
