"""C03: a failed load changes nothing and can be retried."""
import os
import pickle

import numpy as np

from .. import lib, seams, states
from ..core import Violation

META = {
    "runs": {"quick": 900, "thorough": 30000},
    "deadline": {"quick": 100, "thorough": 780},
    "level": "exploration",
    "rule": "one run = a receiving model (fresh, instantiated, or trained on other data) and 1-6 "
    "load attempts, each with a seeded fault (missing, empty, truncated at any byte, foreign "
    "or non-model file, read or open error at a seeded operation, interrupt at a seeded gpcm "
    "line or I/O operation, legal short reads), compared with a twin that never loaded, then a "
    "fault-free load; non-trivial if a fault fired",
    "components": {
        "real": "gpcm, probmods, varz, lab, jax, numpy, pickle; files on a real scratch file system",
        "stub": "read failures and short reads are the simulator's",
    },
    "assumptions": ["a truncated pickle is one cut at any byte before its end; undetectable bit "
                    "rot inside array data is out of scope, the format has no checksum"],
}

BAD = ["missing", "directory", "empty", "truncated", "truncated", "truncated", "garbage",
       "pickled_list", "pickled_none", "text"]


def gen(g, tier):
    kind, fam = lib.lane(g, ("ca", "structured"))
    ops = []
    for _ in range(g.randrange(1, 6)):
        r = g.random()
        if r < 0.5:
            ops.append({"op": "bad", "what": g.pick(BAD), "frac": g.random(),
                        "seed": g.randrange(10**6)})
        elif r < 0.72:
            ops.append({"op": "io", "at": g.randrange(5), "kind": g.pick(["eio", "kbd"]),
                        "short": g.chance(0.3)})
        elif r < 0.92:
            ops.append({"op": "line", "n": g.logint(1, 600), "exc": g.pick(["interrupt", "memory"])})
        else:
            ops.append({"op": "good", "short": g.pick([1, 7, 100, 5000])})
    return {
        "kind": kind,
        "scheme": lib.scheme_of(g, fam),
        "variant": g.randrange(2),
        "target": g.pick(["fresh", "instantiated", "trained"]),
        "ops": ops, "final_short": g.pick([None, 1, 50]), "disk_seed": g.randrange(2**30),
        "predict": g.chance(0.5),
    }


def target(plan, cfg):
    if plan["target"] == "trained":
        return states.trained(plan["kind"], plan["scheme"], plan["variant"], 1)[1]
    m = lib.build(cfg)
    if plan["target"] == "instantiated":
        m()
    return m


def execute(run, plan):
    cfg, donor, (t, y) = states.trained(plan["kind"], plan["scheme"], plan["variant"])
    want = lib.snap(donor)
    root = os.path.join(run.scratch, "disk")
    os.mkdir(root)
    good = os.path.join(root, "good.pickle")
    donor.save(good)
    blob = open(good, "rb").read()
    m = target(plan, cfg)
    before = lib.snap(m)
    mf = plan["scheme"] != "structured"
    tp = lib.grid(cfg)

    def full(kind):
        d = lib.diff_snap(want, lib.snap(m), rtol=1e-9, names=sorted(want))
        run.check(not d, kind, lambda: f"not restored: {d}")

    old = before  # Values the variables may still have after an interrupted load.
    first = {}  # Those of variables that do not exist before the model is first used.
    if plan["target"] == "fresh":
        twin = lib.build(cfg)
        twin()
        first = lib.snap(twin)
    names = list(m.vs.names)
    big = len(blob) > 10000
    disk = seams.SimDisk(run, root, plan["disk_seed"])
    for i, op in enumerate(plan["ops"]):
        run.log(op["op"], op.get("what", ""), op.get("kind", ""))
        path = good
        disk.fault, disk.short = None, None
        disk.n, disk.fired = 0, None
        spec, exc = None, "interrupt"
        r = np.random.RandomState(op.get("seed", 0))
        if op["op"] == "bad":
            path = os.path.join(root, f"bad{i}")
            w = op["what"]
            content = {
                "empty": b"",
                "truncated": blob[: int(op["frac"] * len(blob))],
                "garbage": r.bytes(100 + r.randint(1000)),
                "pickled_list": pickle.dumps([1, 2, 3]),
                "pickled_none": pickle.dumps(None),
                "text": b"noise = 0.1\n",
            }.get(w)
            if w == "directory":
                os.mkdir(path)
            elif w != "missing":
                with open(path, "wb") as f:
                    f.write(content)
            run.fault("bad_file_" + w)
        elif op["op"] == "io":
            disk.fault = {"at": op["at"], "kind": op["kind"]}
            disk.short = 64 if op.get("short") else None
        elif op["op"] == "line":
            spec, exc = {"mode": "count", "n": op["n"]}, op["exc"]
        else:
            disk.short = max(op["short"], 200) if big else op["short"]
        err = None
        with disk:
            try:
                if spec:
                    it = seams.Interrupter(spec, lib.EXCS[exc], lambda: run.fault(exc))
                    with it:
                        m.load(path)
                else:
                    m.load(path)
            except (Exception, KeyboardInterrupt) as e:
                err = e
        now = lib.snap(m)
        if op["op"] == "bad":
            run.check(err is not None, "accepted_bad_file", op["what"])
        elif op["op"] == "io" and disk.fired and disk.fired[2] == "eio" and disk.fired[1] in ("open_r", "read"):
            run.check(err is not None, "swallowed_read_error", str(disk.fired))
        elif err is not None and not (disk.fired or spec):
            raise Violation("load_failed", f"{type(err).__name__}: {err}")
        if err is not None and "injected" not in str(err) and op["op"] != "bad":
            raise Violation("load_failed", f"{type(err).__name__}: {err}")
        if err is None:
            full("load_returned_but_incomplete")
            old = now
            names = list(m.vs.names)
            run.probe("loaded")
        elif op["op"] == "line" or (op["op"] == "io" and op["kind"] == "kbd"):
            # Interrupted: every variable is entirely old or entirely new.
            for n in now:
                ok = (n in old and lib.same(now[n], old[n])) or (
                    n in want and lib.same(now[n], want[n], rtol=1e-9)) or (
                    n not in old and n in first and lib.same(now[n], first[n]))
                run.check(ok, "interrupted_load_mixed", n)
            run.check(set(old) <= set(now), "interrupted_load_lost", "variables disappeared")
            old = {n: now[n] for n in now}
            names = list(m.vs.names)
            run.probe("interrupted")
        else:
            d = lib.diff_snap(old, now)
            run.check(not d, "failed_load_changed_model", lambda: f"{op}: {d}")
            run.check(list(m.vs.names) == names, "failed_load_changed_model", "variables appeared")
            run.probe("failed_load")
    # A model that has not been touched by a successful load still behaves as its twin.
    if mf and plan["predict"] and not lib.diff_snap(before, old) and set(before) == set(old):
        if plan["target"] == "trained":
            a = m.condition(t, y).predict(tp)
            b = target(plan, cfg).condition(t, y).predict(tp)
            run.check(all(lib.same(p, q) for p, q in zip(a, b)), "failed_load_changed_predictions")
    # Finally, the intact file.
    disk.fault, disk.short = None, None if big else plan["final_short"]
    with disk:
        lib.guard("final_load_failed", lambda: m.load(good))
    full("retry_incomplete")
    if plan["predict"] and mf:
        a = m.condition(t, y).predict(tp)
        b = donor.condition(t, y).predict(tp)
        run.check(all(lib.same(p, q, rtol=1e-7) for p, q in zip(a, b)), "retry_predictions")
    run.check(open(good, "rb").read() == blob, "load_changed_file")


def simplify(plan):
    for k, v in (("scheme", "mean-field-ca"), ("kind", "GPCM"), ("variant", 0),
                 ("target", "fresh"), ("final_short", None), ("predict", False)):
        if plan[k] != v:
            yield dict(plan, **{k: v})
