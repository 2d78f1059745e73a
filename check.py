#!/usr/bin/env python3
"""check.py <property> : decide one property against /repo's working tree.

exit 0  the property held on everything explored (or only listed known findings failed)
exit 1  a line "VIOLATION property=<id> replay=<path>" was printed
exit 2  the machinery itself failed
"""
import concurrent.futures as cf
import importlib
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("WALRUS_REPO", "/repo")
PY = "/opt/venv/bin/python"
TLA = "/opt/veriftools/tla/"
CP = f"{TLA}tla2tools.jar:{TLA}CommunityModules-deps.jar"


def die(msg):
    print("CHECK-ERROR " + msg, flush=True)
    sys.exit(2)


class Check:
    def __init__(self, prop):
        self.prop = prop
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.tier = os.environ.get("VERIF_TIER", "quick") or "quick"
        self.t0 = time.time()
        self.tmp = tempfile.mkdtemp(prefix=f"walrus-{prop}-")
        sys.path.insert(0, os.path.join(HERE, "drivers"))
        sys.path.insert(0, os.path.join(HERE, "lib"))
        self.mod = importlib.import_module(prop.lower() + "_meta")
        self.meta = self.mod.META
        self.stats = {"tlc": [], "states": 0, "transitions": 0}
        self.notes = []

    # ------------------------------------------------------------ TLC
    def prepare(self):
        self.spec = os.path.join(self.tmp, "spec")
        os.mkdir(self.spec)
        for f in os.listdir(os.path.join(HERE, "spec")):
            if f.endswith((".tla", ".cfg")):
                shutil.copy(os.path.join(HERE, "spec", f), self.spec)
        self.cls = os.path.join(self.tmp, "cls")
        os.mkdir(self.cls)
        src = os.path.join(HERE, "spec", "java", "walrus")
        r = subprocess.run(["javac", "-nowarn", "-cp", TLA + "tla2tools.jar", "-d", self.cls] + [os.path.join(src, f) for f in sorted(os.listdir(src))],
                           capture_output=True, text=True)
        if r.returncode:
            die("javac: " + r.stderr[-2000:])

    def tlc(self, module, cfg, workers, env=None, extra=(), timeout=800, xmx="3g"):
        meta = tempfile.mkdtemp(dir=self.tmp)
        cmd = ["java", "-XX:+UseParallelGC", f"-Xmx{xmx}", "-Xss64m", "-Dtlc2.overrides.TLCOverrides=tlc2.overrides.TLCOverrides:walrus.WalrusOverrides",
               "-cp", f"{self.cls}:{CP}", "tlc2.TLC", "-workers", str(workers), "-metadir", meta, "-deadlock", "-noGenerateSpecTE", "-config", cfg] + list(extra) + [module]
        e = dict(os.environ)
        e.update(env or {})
        t = time.time()
        try:
            r = subprocess.run(cmd, cwd=self.spec, env=e, capture_output=True, text=True, timeout=timeout)
        except subprocess.TimeoutExpired:
            die(f"TLC {module} timed out")
        out = r.stdout
        m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", out)
        gen, dist = (int(x.replace(",", "")) for x in m[-1]) if m else (0, 0)
        ok = "Model checking completed. No error has been found" in out or "The number of states generated" in out and "Error" not in out
        d = {"module": module, "generated": gen, "distinct": dist, "ok": ok, "wall_s": round(time.time() - t, 1)}
        return d, out, r

    def write_cfg(self, name, text):
        p = os.path.join(self.spec, name)
        open(p, "w").write(text)
        return p

    def gen(self, g):
        out = os.path.join(self.tmp, f"{g}.ndjson")
        cfg = os.path.join(self.spec, g + ".cfg")
        if not os.path.exists(cfg):
            cfg = self.write_cfg(g + ".cfg", "INIT Init\nNEXT Next\n")
        extra = list(self.meta.get("gen_args", {}).get(g, []))
        d, txt, r = self.tlc(g, cfg, 2, {"WALRUS_OUT": out, "WALRUS_TIER": self.tier, "WALRUS_SEED": str(self.seed)}, extra=extra)
        if not os.path.exists(out) or r.returncode:
            die(f"generator {g}: " + txt[-3000:])
        n = sum(1 for _ in open(out))
        d["scenarios"] = n
        self.stats["tlc"].append(d)
        return n

    def model(self, m):
        name, cfg = (m, m + ".cfg") if isinstance(m, str) else m
        d, txt, r = self.tlc(name, os.path.join(self.spec, cfg), 3, {"WALRUS_TIER": self.tier})
        d["kind"] = "design model"
        d["cfg"] = cfg
        if r.returncode or not d["ok"]:
            die(f"design model {name}/{cfg} does not hold:\n" + txt[-4000:])
        return d

    # ------------------------------------------------------------ drivers
    def job(self, j):
        out = os.path.join(self.tmp, f"{j}.ndjson")
        env = dict(os.environ)
        env.update(PYTHONPATH=f"{REPO}:{HERE}/lib:{HERE}/drivers", PYTHONDONTWRITEBYTECODE="1", NUMBA_CACHE_DIR=os.path.join(self.tmp, "nb" if "warm" in self.meta else "nb-" + j),
                   OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1", MKL_NUM_THREADS="1", PYTHONHASHSEED="0", MPLCONFIGDIR=self.tmp, TMPDIR=self.tmp)
        env.setdefault("NUMBA_NUM_THREADS", str(self.meta.get("threads", 2)))
        t = time.time()
        limit = self.meta.get("timeout", 600) if self.tier == "quick" else 6000
        drv = os.path.join(HERE, "drivers", self.meta.get("driver", self.prop.lower()) + ".py")
        try:
            r = subprocess.run([PY, drv, self.prop, j, str(self.seed), self.tier, out], env=env, capture_output=True, text=True, timeout=limit, cwd=self.tmp)
            rc, err = r.returncode, r.stderr
        except subprocess.TimeoutExpired:
            rc, err = "timeout", ""
        res = {"job": j, "rc": rc, "wall_s": round(time.time() - t, 1), "out": out, "err": err[-3000:]}
        if rc != 0:
            now = out + ".now"
            res["now"] = open(now).read() if os.path.exists(now) else ""
        return res

    # ------------------------------------------------------------ main
    def run(self):
        self.prepare()
        t = time.time()
        jobs = list(self.mod.jobs(self.tier)) if hasattr(self.mod, "jobs") else list(self.meta["jobs"])
        with cf.ThreadPoolExecutor(8) as ex:
            mods = [ex.submit(self.model, m) for m in self.meta.get("models", []) + (self.meta.get("models_thorough", []) if self.tier == "thorough" else [])]
            for g in self.meta.get("gen", []):
                self.gen(g)
            tg = time.time()
            with cf.ThreadPoolExecutor(self.meta.get("par", 8)) as ex2:
                # jobs that compile what the others then find in this run's (fresh) cache
                warm = list(ex2.map(self.job, self.meta.get("warm", [])))
                res = [r for r in warm if r["rc"] != 0] or (warm if self.meta.get("warm_events") else []) + list(ex2.map(self.job, jobs))
            td = time.time()
            for m in mods:
                self.stats["tlc"].append(m.result())
        tm = time.time()
        viol = []  # (event-like dict, clauses)
        events = []
        for r in res:
            if os.path.exists(r["out"]):
                for line in open(r["out"]):
                    try:
                        events.append(json.loads(line))
                    except ValueError:
                        pass
            if r["rc"] != 0:
                if isinstance(r["rc"], int) and r["rc"] > 0:
                    die(f"driver {self.prop}/{r['job']} failed: {r['err']}")
                try:
                    now = json.loads(r.get("now") or "{}")
                except ValueError:
                    now = {}
                now.setdefault("op", r["job"])
                now.setdefault("key", "job:" + r["job"])
                now["id"] = r["job"] + "-last"
                what = "call did not return" if r["rc"] == "timeout" else f"process killed by signal {-r['rc']} during the call"
                if r["rc"] == -9:
                    die(f"driver {r['job']} was killed (memory?)")
                viol.append((now, [what]))
        if not events and not viol:
            die("no events recorded")
        tr = os.path.join(self.tmp, "trace.ndjson")
        with open(tr, "w") as f:
            for e in events:
                f.write(json.dumps(e) + "\n")
        byid = {e["id"]: e for e in events}
        mod = self.meta["trace"]
        cfg = os.path.join(self.spec, mod + ".cfg")
        if not os.path.exists(cfg):
            cfg = self.write_cfg(mod + ".cfg", "INIT TraceInit\nNEXT TraceNext\nVIEW TraceView\n")
        d, txt, r = self.tlc(mod, cfg, 8, {"WALRUS_TRACE": tr, "WALRUS_TIER": self.tier}, xmx="6g", timeout=840 if self.tier == "quick" else 10000)
        d["kind"] = "trace validation"
        self.stats["tlc"].append(d)
        if r.returncode or not d["ok"]:
            shutil.copy(tr, f"/tmp/{self.prop}-trace.ndjson") if os.environ.get("WALRUS_KEEP") else None
            die(f"trace validation {mod} failed to evaluate:\n" + txt[-5000:] + r.stderr[-1000:])
        STR = r'"((?:[^"\\]|\\.)*)"'
        rej = re.findall(r'<<\s*"REJECT",\s*' + STR + r',\s*\{((?:\s*"(?:[^"\\]|\\.)*"\s*,?)*)\s*\}\s*>>', txt)
        if len(rej) != txt.count('"REJECT"'):
            die(f"could not parse all rejections: {len(rej)} of {txt.count(chr(34) + 'REJECT' + chr(34))}\n" + txt[-3000:])
        for i, cl in rej:
            e = byid.get(i, {"id": i, "op": "?", "key": "?"})
            viol.append((e, re.findall(STR, cl)))
        nchains = min(64, len(events))
        if d["distinct"] != 1 + nchains + len(events):
            die(f"trace not fully judged: {d['distinct']} states for {len(events)} events")
        tt = time.time()

        # ---- known findings
        known = json.load(open(os.path.join(HERE, "known_findings.json")))["findings"]
        known = [k for k in known if k["property"] == self.prop and k.get("status", "open") == "open"]
        left, hit = [], {}
        for e, cl in viol:
            rest = []
            for c in cl:
                k = next((k for k in known if re.fullmatch(k["op"], e.get("op", "")) and re.fullmatch(k["key"], e.get("key", "")) and re.fullmatch(k["clause"], c)), None)
                if k is None:
                    rest.append(c)
                else:
                    hit.setdefault(k["id"], []).append(e["id"])
            if rest:
                left.append((e, rest))
        for k in known:
            if k["id"] in hit:
                print(f"KNOWN-FINDING: property={self.prop} {k['id']} {k['what']} ({len(hit[k['id']])} recorded calls)")
        self.phases = dict(gen=tg - t, drive=td - tg, model_tail=tm - td, trace=tt - tm)
        self.evidence(events, viol, left, hit, self.phases, res)
        keep = os.environ.get("WALRUS_KEEP")
        if keep:
            shutil.copy(tr, f"/tmp/{self.prop}-trace.ndjson")
        shutil.rmtree(self.tmp, ignore_errors=True)
        if left:
            rd = os.path.join(HERE, "evidence", "replay")
            os.makedirs(rd, exist_ok=True)
            p = os.path.join(rd, f"{self.prop}.json")
            json.dump([{"event": e, "failing_clauses": c} for e, c in left[:50]], open(p, "w"), indent=1)
            for e, c in left[:8]:
                print(f"  rejected: {e.get('op')} [{e.get('key')}] {'; '.join(c)[:300]}")
            groups = {}
            for e, c in left:
                for x in c:
                    g = (e.get("op"), re.split(r": | at \[|\d", x)[0])
                    groups[g] = groups.get(g, 0) + 1
            for g, k in sorted(groups.items(), key=lambda t: -t[1])[:12]:
                print(f"  {k:5d} x {g[0]}: {g[1]}")
            print(f"  {len(left)} recorded calls rejected by the specification")
            print(f"VIOLATION property={self.prop} replay={p}")
            sys.exit(1)
        print(f"OK property={self.prop} events={len(events)} states={self.states} wall={time.time() - self.t0:.1f}s " + str({k: round(v) for k, v in self.phases.items()}) + str({r["job"]: round(r["wall_s"]) for r in res}))

    def evidence(self, events, viol, left, hit, phases, res):
        states = sum(d["distinct"] for d in self.stats["tlc"])
        trans = sum(d["generated"] for d in self.stats["tlc"])
        self.states = states
        ops = {}
        for e in events:
            ops[e["op"]] = ops.get(e["op"], 0) + 1
        keys = {(e["op"], json.dumps(e["in"], sort_keys=True)) for e in events}
        step = max(1, len(events) // 4)
        samples = []
        for e in events[::step][:5]:
            s = json.dumps(e)
            samples.append(e if len(s) < 3000 else {"id": e["id"], "op": e["op"], "key": e["key"], "in": json.dumps(e["in"])[:1200], "out": json.dumps(e["out"])[:600]})
        ev = {
            "property": self.prop, "tier": self.tier, "seed": self.seed, "level": "model_checking",
            "coverage": {
                "states": states, "transitions": trans,
                "traces_validated_against_impl": len(events),
                "distinct_inputs": len(keys), "calls_per_operation": ops,
                "rule": self.meta.get("rule", "recorded calls of the real code; distinct by operation and exact arguments"),
                "tlc_runs": self.stats["tlc"], "phases_s": {k: round(v, 1) for k, v in phases.items()},
                "jobs": [{k: r[k] for k in ("job", "wall_s")} for r in res],
                "known_findings_hit": {k: len(v) for k, v in hit.items()},
                "samples": samples,
            },
            "assumptions": self.meta.get("assumptions", []),
            "wall_s": round(time.time() - self.t0, 1), "violations": len(left),
        }
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        json.dump(ev, open(os.path.join(HERE, "evidence", self.prop + ".json"), "w"), indent=1)


if __name__ == "__main__":
    c = Check(sys.argv[1])
    try:
        c.run()
    finally:
        shutil.rmtree(c.tmp, ignore_errors=True)
