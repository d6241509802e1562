"""C12: training respects hyperparameter constraints and fix flags."""
import os

import numpy as np

from .. import lib
from ..core import Violation

META = {
    "runs": {"quick": 110, "thorough": 6000},
    "deadline": {"quick": 80, "thorough": 780},
    "level": "exploration",
    "rule": "one run = one model with seeded arguments and fix flags taken through a history of fits, "
    "interrupted fits, saves and loads and fits on a conditioned model; after every step all "
    "constraints, fix flags and movements of hyperparameters are checked; non-trivial if a fit was judged",
    "components": {
        "real": "gpcm, probmods, varz, lab, jax, SciPy's optimiser, files",
        "stub": "clock, output stream, random seeds; jitted functions run op by op in half of the structured "
        "and all mean-field runs",
    },
    "assumptions": ["data of the order of the prior's scale"],
}

CLAIMED = {"GPCM": ["noise", "alpha", "alpha_t", "gamma", "omega", "t_u", "t_z"],
           "RGPCM": ["noise", "alpha", "alpha_t", "lambda", "gamma_factor", "t_u"]}
FLAG = {"fix_noise": "noise", "fix_window": "alpha", "fix_scale": {"GPCM": "gamma", "CGPCM": "gamma", "RGPCM": "lambda"}}


def gen(g, tier):
    kind, fam = lib.lane(g)
    scheme = lib.scheme_of(g, fam)
    cfg = lib.gen_cfg(g, [kind], [scheme], flags=False)
    if g.chance(0.5):
        for f in ("fix_noise", "fix_window", "fix_scale"):
            if g.chance(0.5):
                cfg[f] = True
    cfg["noise"] = round(10 ** g.uniform(-2.5, 0), 5)
    ops = []
    n = {"ca": g.randrange(2, 6), "structured": 1, "grad": g.randrange(1, 3)}[fam]
    for k in range(n):
        o = g.weighted([("fit", 5), ("interrupted", 1.5 if fam == "ca" or k else 0.5), ("reload", 1), ("stream", 0.8)])
        if fam == "structured":
            o = "fit"
        op = {"op": o, "d": g.randrange(3), "scale": g.pick([1, 1, 0.3, 3])}
        if fam == "structured":
            op["hypers"] = g.pick([True, True, 3, 6, False])
            op["iters"] = g.pick([4, 8])
        else:
            op["iters"] = g.pick([1, 3, 10]) if fam == "ca" else g.pick([5, 10, 25])
        if o == "interrupted":
            op["spec"] = lib.gen_interrupt(g, n_max=8000)
        ops.append(op)
    if fam == "structured" and g.chance(0.3):
        ops.append({"op": g.pick(["reload", "interrupted"]), "d": 0, "hypers": 3, "iters": 4, "scale": 1,
                    "spec": lib.gen_interrupt(g, n_max=3000)})
        ops.append({"op": "fit", "d": 1, "hypers": g.pick([False, 2]), "iters": 4, "scale": 1})
    return {"cfg": cfg, "ops": ops, "data": g.randrange(10**6), "touch": fam != "structured" and g.chance(0.5),
            "jit": fam == "structured" and g.chance(0.5)}


def fixed_names(cfg):
    res = []
    for f, n in FLAG.items():
        if cfg.get(f):
            res.append(n if isinstance(n, str) else n[cfg["kind"]])
    return res


def execute(run, plan):
    cfg = plan["cfg"]
    kind = cfg["kind"]
    structured = cfg["scheme"] == "structured"
    learns = cfg["scheme"] not in ("mean-field-ca", "structured")
    m = lib.build(cfg)
    root = m
    if plan["touch"]:
        lib.qs(m)
    attr = {"noise": "noise", "alpha": "alpha", "gamma": "gamma", "lambda": "lam"}
    fixed = fixed_names(cfg)
    inst = m()
    given = {n: lib.num(getattr(inst, attr[n])) for n in fixed}
    t_u0 = lib.num(m().t_u)
    bounds = (1.5 * t_u0.min(), 1.5 * t_u0.max()) if kind != "RGPCM" else (-1e-4, 1.5 * t_u0.max())
    names = [n for n in CLAIMED.get(kind, CLAIMED["GPCM"]) if n not in fixed]
    run.check(not (set(fixed) & set(m.vs.names)), "fixed_parameter_is_a_variable", str(m.vs.names))
    depth = 0

    def constraints(when):
        inst = m()
        s = lib.snap(m)
        for n, v in s.items():
            run.check(np.all(np.isfinite(v)), "not_finite", lambda: f"{n} {when}")
        for n in ("noise", "alpha", "alpha_t", "gamma", "omega", "lam"):
            if hasattr(inst, n):
                v = lib.num(getattr(inst, n))
                run.check(np.isfinite(v) and v > 0, "not_positive", lambda: f"{n} = {v} {when}")
        tu = lib.num(inst.t_u)
        w = bounds[1] - bounds[0]
        run.check(np.all(tu >= bounds[0] - 1e-9 * w) and np.all(tu <= bounds[1] + 1e-9 * w), "inducing_point_out_of_bounds",
                  lambda: f"{tu} not in {bounds} {when}")
        if kind == "RGPCM":
            run.check(lib.num(inst.gamma) < lib.num(inst.alpha), "decays_in_wrong_order", when)
        for n in fixed:
            v = lib.num(getattr(inst, attr[n]))
            run.check(v == given[n], "fixed_parameter_moved", lambda: f"{n}: {given[n]} -> {v} {when}")

    constraints("at first")
    for k, op in enumerate(plan["ops"]):
        lib.unindent()
        t, y = lib.data(cfg, plan["data"] + op["d"] + 11 * depth)
        y = y * op["scale"]
        o = op["op"]
        s0 = lib.snap(m)
        run.log(o, depth)
        kw = {"iters": op["iters"]}
        if structured:
            kw.update(optimise_hypers=op["hypers"], num_samples=1)
        may_learn = learns or (structured and op["hypers"] is not False)
        if o == "fit":
            lib.guard("fit_failed", lambda: m.fit(t, y, **kw))
            s1 = lib.snap(m)
            moved = [n for n in names if not lib.same(s0[n], s1[n])]
            if may_learn:
                run.probe("learned")
                # A line search may fail without any progress, but not for some parameters only.
                stuck = [n for n in names if n not in moved]
                if moved or structured:
                    run.check(not stuck, "parameter_not_learned", lambda: f"{stuck} after fit {k} ({cfg['scheme']})")
                else:
                    run.probe("no_progress")
            else:
                run.check(not moved, "hyperparameter_moved", lambda: f"{moved} in fit {k} ({cfg['scheme']})")
        elif o == "interrupted":
            lib.interrupted(run, op["spec"], lambda: m.fit(t, y, **kw))
            if not may_learn:
                d = lib.diff_snap(s0, lib.snap(m), names=names)
                run.check(not d, "hyperparameter_moved", lambda: f"{d} in interrupted fit {k}")
        elif o == "reload" and depth == 0:
            path = os.path.join(run.scratch, "m.pickle")
            m.save(path)
            m = lib.build(cfg)
            m()
            if not structured:
                lib.qs(m)
            lib.guard("load_failed", lambda: m.load(path))
            run.probe("reloaded")
        elif o == "stream" and lib.has_q(s0, depth) and not structured:
            m = m.condition(t, y)
            depth += 1
            run.probe("streamed")
        constraints(f"after {o} {k}")
        for n in names:
            run.log_array(n, lib.snap(m)[n])


def simplify(plan):
    for f in ("fix_noise", "fix_window", "fix_scale"):
        if plan["cfg"].get(f):
            c = dict(plan["cfg"])
            c.pop(f)
            yield dict(plan, cfg=c)
    for i, op in enumerate(plan["ops"]):
        if op["iters"] > 5:
            yield dict(plan, ops=plan["ops"][:i] + [dict(op, iters=5)] + plan["ops"][i + 1:])
