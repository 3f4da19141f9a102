"""Runs simulations of one property (one process, one hash seed)."""
import argparse
import hashlib
import importlib
import json
import os
import random
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.dirname(HERE))


def load(prop):
    from sim.checks import registry
    return registry.get(prop)


class Runner:
    def __init__(self, kernel, cls):
        self.k = kernel
        self.cls = cls

    def fresh(self, cfg):
        from sim.ops import Exec
        self.k.abort()
        p = self.cls()
        self.ex = Exec(self.k, p, cfg)
        return p, self.ex

    def generate(self, seed, index, tier):
        """One random run. Returns (cfg, trace, violation or None, info)."""
        from sim.ops import Gen
        from sim.scen import Violation
        rng = random.Random("%s/%s/%s" % (self.cls.id, seed, index))
        p0 = self.cls()
        p0.tier = tier
        cfg = p0.cfg(rng)
        p, ex = self.fresh(cfg)
        p.tier = tier
        g = Gen(ex, rng)
        c0 = self.k.world.clock
        s0 = self.k.world.steps
        viol = None
        try:
            p.gen(ex, g, rng)
        except Violation as v:
            viol = v
        info = {"evals": ex.evals, "sig": self.signature(ex), "nontrivial": p.nontrivial(ex),
                "simt": ex.simtime + (self.k.world.clock - c0) / 1e9,
                "steps": ex.simsteps + self.k.world.steps - s0,
                "states": ex.states, "ops": len(ex.trace)}
        return cfg, list(ex.trace), viol, info

    def signature(self, ex):
        return hashlib.sha1(json.dumps([ex.cfg, ex.trace], sort_keys=True, default=str)
                            .encode()).hexdigest()[:12]

    def replay(self, cfg, ops):
        """Execute explicit operations. Returns (violation or None, digest)."""
        from sim.scen import Violation
        p, ex = self.fresh(cfg)
        viol = None
        try:
            for op in ops:
                ex.do(op)
        except Violation as v:
            viol = v
        return viol, self.k.world.digest()

    def minimize(self, cfg, ops, kind, budget):
        t0 = time.time()

        def bad(c, o):
            try:
                v, _ = self.replay(c, o)
            except Exception:          # operations that make no sense anymore
                self.k.abort()
                return False
            return v is not None and v.kind == kind
        if not bad(cfg, ops):
            return cfg, ops, False
        n = 2
        ops = list(ops)
        while len(ops) > 1 and time.time() - t0 < budget:
            size = max(1, len(ops) // n)
            done = False
            for i in range(0, len(ops), size):
                cand = ops[:i] + ops[i + size:]
                if time.time() - t0 > budget:
                    break
                if cand and bad(cfg, cand):
                    ops = cand
                    n = max(n - 1, 2)
                    done = True
                    break
            if not done:
                if size == 1:
                    break
                n = min(len(ops), n * 2)
        # simpler operations: drop plan entries, preemptions, specs
        changed = True
        while changed and time.time() - t0 < budget:
            changed = False
            for i, op in enumerate(ops):
                for cand in self.simpler(op):
                    if time.time() - t0 > budget:
                        break
                    o = ops[:i] + [cand] + ops[i + 1:]
                    if bad(cfg, o):
                        ops = o
                        changed = True
                        break
        # simpler configuration
        from sim.checks.base import default_cfg
        dflt = default_cfg(len(cfg["clients"]))
        for key in sorted(cfg):
            if key in dflt and key != "clients" and cfg[key] != dflt[key]:
                c = dict(cfg)
                c[key] = dflt[key]
                if time.time() - t0 < budget and bad(c, ops):
                    cfg = c
        for j in range(len(cfg["clients"])):
            for key in sorted(cfg["clients"][j]):
                if cfg["clients"][j][key] != dflt["clients"][j].get(key):
                    c = json.loads(json.dumps(cfg))
                    c["clients"][j][key] = dflt["clients"][j].get(key)
                    if time.time() - t0 < budget and bad(c, ops):
                        cfg = c
        return cfg, ops, True

    @staticmethod
    def simpler(op):
        """Variants of an operation with one element of a nested list left out."""
        for j, part in enumerate(op):
            if isinstance(part, list) and part and j > 0:
                for x in range(len(part)):
                    new = list(op)
                    new[j] = part[:x] + part[x + 1:]
                    yield new
                    if isinstance(part[x], list) and part[x] and isinstance(part[x][0], (dict, list)):
                        for y in range(len(part[x])):
                            new = list(op)
                            new[j] = part[:x] + [part[x][:y] + part[x][y + 1:]] + part[x + 1:]
                            yield new


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default="quick")
    ap.add_argument("--seed", default="1")
    ap.add_argument("--start", type=int, default=0)
    ap.add_argument("--step", type=int, default=1)
    ap.add_argument("--count", type=int, default=0)
    ap.add_argument("--deadline", type=float, default=0)
    ap.add_argument("--scratch", required=True)
    ap.add_argument("--replay")
    ap.add_argument("--minimize", type=float, default=60)
    ap.add_argument("--digests", action="store_true")
    a = ap.parse_args()
    out = os.fdopen(os.dup(1), "w")

    def emit(x):
        out.write(json.dumps(x) + "\n")
        out.flush()
    try:
        from sim import boot
        k = boot.init(a.scratch)
        r = Runner(k, load(a.prop))
        if a.replay:
            with os.fdopen(os.dup(0)) as f:
                rep = json.load(f)
            v, dig = r.replay(rep["cfg"], rep["ops"])
            emit({"t": "replay", "kind": v.kind if v else None, "msg": v.msg if v else None,
                  "digest": dig})
            return
        agg = new_agg()
        last = time.time()
        r.ex = None
        watch = {"i": None}
        sampled = 0
        threading_start(lambda: watchdog(r, k, watch, emit))
        for i in range(a.start, a.count, a.step):
            if a.deadline and time.time() > a.deadline:
                break
            k.stats = {}
            watch["i"] = i
            cfg, trace, viol, info = r.generate(a.seed, i, a.tier)
            add(agg, info, k.stats)
            if info["nontrivial"] and sampled < 1 and len(trace) < 200:
                sampled += 1
                emit({"t": "sample", "run": i, "cfg": cfg, "ops": trace})
            if a.digests:
                emit({"t": "digest", "i": i, "d": k.world.digest(), "v": viol.msg if viol else None})
            watch["i"] = None
            if viol is not None:
                emit({"t": "agg", **drain(agg)})
                agg = new_agg()
                emit({"t": "found", "i": i, "kind": viol.kind, "msg": viol.msg})
                cfg2, ops2, rep_ok = r.minimize(cfg, trace, viol.kind, a.minimize)
                v2, dig = r.replay(cfg2, ops2)
                emit({"t": "violation", "i": i, "kind": viol.kind,
                      "msg": v2.msg if v2 else viol.msg, "digest": dig, "cfg": cfg2, "ops": ops2,
                      "reproduced": bool(rep_ok and v2)})
                last = time.time()
            if time.time() - last > 2:
                emit({"t": "agg", **drain(agg)})
                agg = new_agg()
                last = time.time()
        emit({"t": "agg", **drain(agg)})
        emit({"t": "done"})
    except BaseException:
        emit({"t": "harness", "tb": traceback.format_exc()[-3000:]})
    out.flush()
    os._exit(0)


def threading_start(f):
    import _thread
    _thread.start_new_thread(f, ())


def watchdog(r, k, watch, emit):
    """A command that computes for a minute without doing anything hangs."""
    from sim import kernel as KN
    last, since = None, KN.REAL_TIME()
    while True:
        KN.REAL_SLEEP(2)
        now = (watch["i"], k.world.steps, k.world.clock)
        if now != last or watch["i"] is None:
            last, since = now, KN.REAL_TIME()
        elif KN.REAL_TIME() - since > 60 and r.ex is not None:
            emit({"t": "violation", "i": watch["i"], "kind": "hang",
                  "msg": "a command computes without end", "digest": None, "cfg": r.ex.cfg,
                  "ops": list(r.ex.trace), "reproduced": False})
            os._exit(0)


def new_agg():
    return {"runs": 0, "evals": 0, "simt": 0.0, "steps": 0, "ops": 0, "stats": {}, "sigs": set(),
            "nontrivial": set(), "states": set()}


def add(agg, info, stats):
    agg["runs"] += 1
    for key in ("evals", "simt", "steps", "ops"):
        agg[key] += info[key]
    for key, v in stats.items():
        agg["stats"][key] = agg["stats"].get(key, 0) + v
    agg["sigs"].add(info["sig"])
    if info["nontrivial"]:
        agg["nontrivial"].add(info["sig"])
    agg["states"] |= info["states"]


def drain(agg):
    d = dict(agg)
    for key in ("sigs", "nontrivial", "states"):
        d[key] = sorted(agg[key])
    return d


if __name__ == "__main__":
    main()
