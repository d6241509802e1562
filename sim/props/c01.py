"""C01: save, restart and load restore the whole model."""
import copy
import json
import os
import subprocess

import numpy as np

from .. import env, lib, seams, states
from ..core import Violation

META = {
    "runs": {"quick": 240, "thorough": 12000},
    "deadline": {"quick": 75, "thorough": 780},
    "level": "exploration",
    "rule": "one run = a history of fits, evaluations, conditioning on further data, saves to "
    "several paths, loads into fresh, instantiated or otherwise trained models, and restarts "
    "(new model objects; in some runs a new process with another hash seed); every load is "
    "compared with what was saved, variable by variable and prediction by prediction; "
    "non-trivial if a load was compared",
    "components": {
        "real": "gpcm, probmods, varz, lab, jax, numpy, pickle, real files, real second process in some runs",
        "stub": "clock, random seeds and output stream are the simulator's; jitted functions run op by op "
        "except for structured models",
    },
    "assumptions": ["the receiving model is constructed with the same arguments"],
}


def gen(g, tier):
    kind, fam = lib.lane(g)
    scheme = lib.scheme_of(g, fam)
    grad = scheme not in ("structured", "mean-field-ca")
    ops = []
    n = g.randrange(2, 6)
    for _ in range(n):
        w = [("fit", 1 if grad else 3), ("elbo", 1), ("save", 4), ("load", 4), ("stream", 0.7), ("predict", 1)]
        o = g.weighted(w)
        op = {"op": o, "m": g.randrange(3)}
        if o == "fit":
            op.update(iters=g.pick([1, 2, 5, 10]) if not grad else 2, d=g.randrange(3))
        if o in ("save", "load"):
            op["file"] = g.randrange(2)
        if o == "load":
            op["target"] = g.pick(["fresh", "instantiated", "touched", "same", "other"])
        if o in ("elbo", "stream", "predict"):
            op["d"] = g.randrange(3)
        ops.append(op)
    ops.append({"op": "save", "m": g.randrange(3), "file": 0})
    ops.append({"op": "load", "m": g.randrange(3), "file": 0,
                "target": g.pick(["fresh", "instantiated", "touched", "other"]),
                "process": g.chance(0.04), "hashseed": g.randrange(1, 1000)})
    cfg = states.cfgs(kind, scheme, g.randrange(2))
    if scheme != "structured" and g.chance(0.3):
        for f in ("fix_noise", "fix_window", "fix_scale"):
            if g.chance(0.4):
                cfg[f] = True
    return {"cfg": cfg, "start": [g.randrange(4) for _ in range(3)], "ops": ops,
            "data": g.randrange(10**6), "full": g.chance(0.3), "jit": scheme == "structured"}


def behaviour(m, plan, depth, full):
    """What a user sees of a model: deterministic outputs."""
    cfg = plan["cfg"]
    tp = lib.grid(cfg)
    mf = cfg["scheme"] != "structured"
    out = {}
    t, y = lib.data(cfg, plan["data"])
    trained = any(n.startswith("q_") for n in m.vs.names)
    if mf and trained:
        out["elbo"] = lib.num(m.elbo(t, y))
    if trained and (mf or "q_u[0].samples" in m.vs.names):
        p = m.condition(t, y)
        for i in range(1, depth):
            p = p.condition(*lib.data(cfg, plan["data"] + 7 * i))
        if mf or full:
            a, b = p.predict(tp)
            out["mean"], out["var"] = a, b
        a, b = p.predict_fourier()
        out["z_mean"], out["z_var"] = lib.num(a), lib.num(b)
        if full and (mf or depth == 1):
            import jax
            import lab as B

            s0, k0 = np.random.get_state(), B.jax_global_random_state
            np.random.seed(5)
            B.jax_global_random_state = jax.random.PRNGKey(5)
            out["kernel"] = lib.num(p.sample_kernel(np.linspace(0, 1, 4), num_samples=6)[1])
            np.random.set_state(s0)
            B.jax_global_random_state = k0
    return out


def execute(run, plan):
    cfg = plan["cfg"]
    mf = cfg["scheme"] != "structured"
    root = run.scratch
    ms, depth = [], []
    for k in plan["start"]:
        if not mf or (k in (0, 3) and not any(c.startswith("fix") for c in cfg)):
            v = 0 if cfg["T"] == 4.0 else 1
            _, m, _ = states.trained(cfg["kind"], cfg["scheme"] if not mf else "mean-field-ca", v, 0 if k % 2 else 1)
            m.scheme = cfg["scheme"]
        else:
            m = lib.build(cfg)
            if k == 1:
                m()
            if k == 2 and mf:
                lib.qs(m)
        ms.append(m)
        depth.append(1)
    files = {}
    for op in plan["ops"]:
        i = op["m"]
        m = ms[i]
        o = op["op"]
        run.log(o, i)
        if o == "fit":
            if not mf:
                continue
            t, y = lib.data(cfg, plan["data"] + op["d"])
            lib.guard("fit_failed", lambda: m.fit(t, y, iters=op["iters"]))
        elif o == "elbo" and mf:
            m.elbo(*lib.data(cfg, plan["data"] + op["d"]))
        elif o == "predict":
            behaviour(m, plan, depth[i], False)
        elif o == "stream" and mf and lib.has_q(lib.snap(m)) and cfg["scheme"] == "mean-field-ca":
            # Continue on a second batch: a second posterior comes into existence.
            p = m.condition(*lib.data(cfg, plan["data"]))
            lib.guard("fit_failed", lambda: p.fit(*lib.data(cfg, plan["data"] + 7), iters=3))
            depth[i] = 2
            run.probe("streamed")
        elif o == "save":
            path = os.path.join(root, f"m{op['file']}.pickle")
            s0 = lib.snap(m)
            b0 = behaviour(m, plan, depth[i], plan["full"])
            s0 = lib.snap(m)
            lib.guard("save_failed", lambda: m.save(path))
            d = lib.diff_snap(s0, lib.snap(m))
            run.check(not d, "save_changed_model", lambda: str(d))
            keep = copy.deepcopy(m) if plan["full"] and has_u(s0) else None
            files[op["file"]] = (s0, b0, depth[i], keep)
            lib.log_snap(run, "saved", s0)
        elif o == "load":
            if op["file"] not in files:
                continue
            path = os.path.join(root, f"m{op['file']}.pickle")
            want, wb, dep, resume = files[op["file"]]
            tgt = op["target"]
            if tgt == "fresh":
                m = lib.build(cfg)
            elif tgt == "instantiated":
                m = lib.build(cfg)
                m()
            elif tgt == "touched":
                m = lib.build(cfg)
                if mf:
                    lib.qs(m)
            elif tgt == "other":
                m = ms[(i + 1) % 3]
                i = (i + 1) % 3
            run.probe("load_into_" + tgt)
            if op.get("process"):
                process(run, plan, path, want, wb, dep, op["hashseed"])
            blob = open(path, "rb").read()
            lib.guard("load_failed", lambda: m.load(path))
            run.check(open(path, "rb").read() == blob, "load_changed_file")
            ms[i], depth[i] = m, dep
            if resume is not None:
                resumed(run, plan, resume, m, op)
            compare(run, want, lib.snap(m), wb, behaviour(m, plan, dep, plan["full"]), tgt)


def resumed(run, plan, original, loaded, op):
    """Training goes on as if nothing had happened."""
    scheme = plan["cfg"]["scheme"]
    a, b = copy.deepcopy(original), copy.deepcopy(loaded)
    t, y = lib.data(plan["cfg"], plan["data"] + 3)
    kw = {"iters": 2}
    if scheme == "structured":
        kw = {"iters": 4, "num_samples": 1, "optimise_hypers": 2 if plan["data"] % 5 == 0 else False}
    out = []
    for x in (a, b):
        seams.seed_globals(plan["data"])
        before = lib.snap(x)
        lib.guard("fit_failed", lambda: x.fit(t, y, **kw))
        out.append((before, lib.snap(x)))
    (a0, a1), (b0, b1) = out
    run.check(set(a1) <= set(b1), "resumed_training_differs", lambda: f"missing {set(a1) - set(b1)}")
    if scheme == "mean-field-ca" or kw.get("optimise_hypers") is False:
        d = lib.diff_snap(a1, b1, rtol=1e-6, names=sorted(a1))
        run.check(not d, "resumed_training_differs", lambda: f"{d} ({op['target']})")
    # The same variables are open to training.
    va, vb = trainable(a), trainable(b)
    bad = [n for n in a1 if n in b1 and va[n] != vb[n]]
    run.check(not bad, "resumed_training_other_variables", lambda: f"{bad} ({op['target']})")
    run.probe("resumed_training")


def trainable(m):
    """Which variables an optimiser of the model would move."""
    out = {}
    for n in m.vs.names:
        try:
            out[n] = int(np.size(lib.num(m.vs.get_latent_vector(n)))) > 0
        except (RuntimeError, ValueError):
            # Nothing to stack: not open to training.
            out[n] = False
    return out


def has_u(s):
    return any(n.startswith("q_u") for n in s)


def compare(run, want, got, wb, gb, where):
    for n in sorted(want):
        run.check(n in got, "variable_lost", f"{n} ({where})")
        run.check(lib.same(got[n], want[n], rtol=1e-9), "variable_differs",
                  lambda: f"{n} ({where}): {np.ravel(got[n])[:4]} != {np.ravel(want[n])[:4]}")
    run.check(set(wb) <= set(gb), "behaviour_lost", str(set(wb) - set(gb)))
    for k in sorted(wb):
        run.check(lib.same(gb[k], wb[k], rtol=1e-6), "behaviour_differs",
                  lambda: f"{k} ({where}): {np.ravel(gb[k])[:4]} != {np.ravel(wb[k])[:4]}")


def process(run, plan, path, want, wb, dep, hashseed):
    """Restore in a new process with another hash seed."""
    spec = os.path.join(run.scratch, "spec.json")
    outp = os.path.join(run.scratch, "out.npz")
    json.dump({"plan": plan, "path": path, "depth": dep, "out": outp}, open(spec, "w"))
    r = subprocess.run(
        [env.PYTHON, "-m", "sim.props.c01", spec], env=env.child_env(hashseed),
        capture_output=True, text=True, timeout=120, cwd=run.scratch)
    run.fault("process_restart")
    if r.returncode != 0:
        raise Violation("restart_failed", r.stderr[-1200:])
    z = np.load(outp)
    got = {k[2:]: z[k] for k in z.files if k.startswith("s:")}
    gb = {k[2:]: z[k] for k in z.files if k.startswith("b:")}
    compare(run, want, got, wb, gb, "new process")


def simplify(plan):
    for i, op in enumerate(plan["ops"]):
        if op.get("process"):
            o = dict(op, process=False)
            yield dict(plan, ops=plan["ops"][:i] + [o] + plan["ops"][i + 1 :])
        if op.get("target", "fresh") != "fresh":
            o = dict(op, target="fresh")
            yield dict(plan, ops=plan["ops"][:i] + [o] + plan["ops"][i + 1 :])
    if plan["full"]:
        yield dict(plan, full=False)


def _main():
    import sys

    env.setup()
    from .. import seams

    spec = json.load(open(sys.argv[1]))
    sys.stdout = seams.sink
    seams.seed_globals(77)
    seams.set_jit(spec["plan"].get("jit", False))
    m = lib.build(spec["plan"]["cfg"])
    m.load(spec["path"])
    s = lib.snap(m)
    b = behaviour(m, spec["plan"], spec["depth"], spec["plan"]["full"])
    np.savez(spec["out"], **{f"s:{k}": v for k, v in s.items()}, **{f"b:{k}": v for k, v in b.items()})


if __name__ == "__main__":
    _main()
