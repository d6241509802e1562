"""C02: an interrupted or failing save never loses the saved model."""
import os

import numpy as np

from .. import lib, seams, states
from ..core import SimCrash, Violation

KINDS_IO = [
    ("crash_before", 3), ("crash_after", 3), ("crash_torn", 3),
    ("power_before", 2), ("power_after", 3),
    ("eio", 3), ("enospc", 3), ("torn_eio", 2), ("short", 1), ("kbd", 2),
]

META = {
    "runs": {"quick": 1000, "thorough": 40000},
    "deadline": {"quick": 100, "thorough": 780},
    "level": "exploration",
    "rule": "one run = a history of 1-6 saves of different states of one model (any class, "
    "mean-field or structured) to one path, each save with at most one fault at a seeded "
    "I/O operation or point of gpcm code, with restarts in between, checked by loading into a "
    "fresh model after every save; non-trivial if a save was checked",
    "components": {
        "real": "gpcm, probmods, varz, lab, jax, numpy, pickle; bytes on a real scratch file system",
        "stub": "failure behaviour of the disk (operation faults, lost page cache and lost directory "
        "updates on power loss) is the simulator's; crash = abandoning the process state",
    },
    "assumptions": [
        "fsync of a file makes its contents and earlier directory operations durable",
        "rename within a directory is atomic, as POSIX requires",
        "code of dependencies does not fail between I/O operations",
    ],
}


def gen_fault(g):
    r = g.random()
    if r < 0.75:
        return {"io": {"at": g.randrange(7), "kind": g.weighted(KINDS_IO)}}
    return {"line": {"mode": "count", "n": 1 + g.randrange(60)},
            "exc": g.pick(["interrupt", "memory", "crash"])}


def gen(g, tier):
    kind, fam = lib.lane(g, ("ca", "structured"))
    scheme = lib.scheme_of(g, fam)
    ops = []
    for _ in range(g.randrange(1, 6)):
        if g.chance(0.8):
            ops.append({"op": "mutate", "seed": g.randrange(10**6)})
        save = {"op": "save"}
        if g.chance(0.65):
            save["fault"] = gen_fault(g)
        ops.append(save)
        if g.chance(0.3):
            ops.append({"op": "restart"})
    if not any("fault" in o for o in ops):
        ops[-1 if ops[-1]["op"] == "save" else -2]["fault"] = gen_fault(g)
    ops.append({"op": "save"})
    return {
        "kind": kind, "scheme": scheme, "variant": g.randrange(2),
        "ops": ops, "disk_seed": g.randrange(2**30), "pre": g.chance(0.3),
    }


def mutate(m, seed):
    r = np.random.RandomState(seed)
    for name in list(m.vs.names):
        v = lib.num(m.vs[name])
        if name.startswith("t_") or name.startswith("q_"):
            if name.endswith("prec"):
                m.vs.assign(name, v * np.exp(0.3 * r.randn()))
            elif name.startswith("t_"):
                # Move inducing points towards their mean: stays within any bounds.
                m.vs.assign(name, v.mean() + (v - v.mean()) * r.uniform(0.7, 0.99))
            else:
                m.vs.assign(name, v + r.randn(*v.shape))
        elif name == "gamma_factor":
            m.vs.assign(name, 1 + (v - 1) * r.uniform(0.5, 2) + 1e-3)
        else:
            m.vs.assign(name, v * np.exp(0.3 * r.randn()))


ABSENT = "absent"


def execute(run, plan):
    cfg, m, _ = states.trained(plan["kind"], plan["scheme"], plan["variant"])
    root = os.path.join(run.scratch, "disk")
    os.mkdir(root)
    path = os.path.join(root, "model.pickle")
    other = os.path.join(root, "other.pickle")
    m.save(other)
    other_bytes = open(other, "rb").read()
    other_snap = lib.snap(m)
    if plan.get("pre"):
        # Something that is not a model is in the way: it may be replaced.
        with open(path, "wb") as f:
            f.write(b"not a model")
    disk = seams.SimDisk(run, root, plan["disk_seed"])
    acked = [ABSENT]
    last = ABSENT  # Last completed save.

    def verify(acceptable, kind):
        fresh = lib.build(cfg)
        if not os.path.exists(path) or (
            plan.get("pre") and open(path, "rb").read() == b"not a model"
        ):
            run.check(any(a is ABSENT for a in acceptable), kind + ":lost",
                      "the saved file has disappeared")
            return ABSENT
        try:
            fresh.load(path)
        except Exception as e:
            raise Violation(kind + ":unreadable", f"{type(e).__name__}: {e}")
        got = lib.snap(fresh)
        for a in acceptable:
            if a is not ABSENT and not lib.diff_snap(a, got, rtol=1e-9):
                run.check(True, kind)
                return a
        run.check(False, kind + ":content", lambda: "loaded model is neither the last "
                  "saved nor the one being saved; differs from the latter in "
                  + str(lib.diff_snap(acceptable[-1], got, rtol=1e-9)
                        if acceptable[-1] is not ABSENT else "everything"))

    for op in plan["ops"]:
        if op["op"] == "mutate":
            mutate(m, op["seed"])
        elif op["op"] == "restart":
            if last is not ABSENT:
                m = lib.build(cfg)
                m.load(path)
            run.log("restart")
        elif op["op"] == "save":
            cur = lib.snap(m)
            f = op.get("fault")
            disk.fault = f.get("io") if f else None
            disk.n, disk.fired, disk.full, disk.dead, disk.power = 0, None, False, False, False
            crashed = False
            err = None
            run.log("save")
            with disk:
                try:
                    if f and "line" in f:
                        if f["exc"] == "crash":
                            def on_fire():
                                disk.dead = True
                                run.fault("crash")
                            it = seams.Interrupter(f["line"], SimCrash, on_fire)
                        else:
                            it = seams.Interrupter(
                                f["line"], lib.EXCS[f["exc"]],
                                lambda: run.fault(f["exc"]))
                        with it:
                            m.save(path)
                    else:
                        m.save(path)
                except SimCrash:
                    crashed = True
                except BaseException as e:
                    err = e
            crashed = crashed or disk.dead
            fired = bool(disk.fired) or crashed or (err is not None)
            if disk.fired:
                run.probe(f"at_{disk.fired[1]}")
            changed = lib.diff_snap(cur, lib.snap(m))
            run.check(not changed, "save_changed_model", str(changed))
            if crashed:
                acc = (acked if disk.power else [last]) + [cur]
            elif err is not None:
                legal = fired and (
                    isinstance(err, (KeyboardInterrupt, MemoryError))
                    or (isinstance(err, OSError) and "injected" in str(err)))
                if not legal:
                    raise Violation("save_failed", f"{type(err).__name__}: {err}")
                run.probe("save_raised")
                acc = [last, cur]
            else:
                acc = [cur]
            got = verify(acc, "acknowledged_save" if len(acc) == 1 else "interrupted_save")
            run.log("found", "new" if got is cur else "old")
            run.probe("found_new" if got is cur else "found_old")
            last = got
            if crashed and disk.power:
                acked = [got]
            elif got is cur:
                acked.append(cur)
            if crashed:
                # The process is gone: start again from the disk.
                m = lib.build(cfg)
                if last is ABSENT:
                    mutate_from(m, cur)
                else:
                    m.load(path)
                disk.scan()
            now = open(other, "rb").read() if os.path.exists(other) else None
            if now != other_bytes:
                x = lib.build(cfg)
                try:
                    x.load(other)
                    d = lib.diff_snap(other_snap, lib.snap(x), rtol=1e-9)
                except Exception as e:
                    d = repr(e)
                raise Violation("other_file", f"another saved model was changed: {d}")


def mutate_from(m, s):
    for name, v in s.items():
        m.vs.unbounded(init=v, visible=False, name=name)


def simplify(plan):
    for i, op in enumerate(plan["ops"]):
        if "fault" in op:
            o = dict(op)
            del o["fault"]
            yield dict(plan, ops=plan["ops"][:i] + [o] + plan["ops"][i + 1 :])
    for k, v in (("scheme", "mean-field-ca"), ("kind", "GPCM"), ("variant", 0), ("pre", False)):
        if plan[k] != v:
            yield dict(plan, **{k: v})
