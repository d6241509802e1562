"""C11: an interrupted fit leaves a usable model."""
import copy

import numpy as np

from .. import lib, states
from ..core import Violation
from .c08 import elbo

META = {
    "runs": {"quick": 200, "thorough": 9000},
    "deadline": {"quick": 80, "thorough": 780},
    "level": "fault-simulation",
    "rule": "one run = one model (new, initialised or trained) whose fit is interrupted once or several "
    "times at seeded points by an interrupt, a failing allocation or failing output; the variables are "
    "compared with those before and with those of a twin that was never interrupted, the model is used, "
    "and the fit is run again; non-trivial if a fault fired",
    "components": {
        "real": "gpcm, probmods, varz, lab, jax, SciPy's optimiser",
        "stub": "clock, output stream, random seeds; jitted functions run op by op except in some "
        "structured runs",
    },
    "assumptions": ["interrupts are delivered where CPython delivers signals in code of gpcm"],
}


def gen(g, tier):
    kind, fam = lib.lane(g)
    scheme = lib.scheme_of(g, fam)
    cfg = states.cfgs(kind, scheme, g.randrange(2))
    start = g.pick(["new", "touched", "touched", "trained"])
    jit = fam == "structured" and g.chance(0.7)
    kw = {"iters": {"ca": g.pick([1, 5, 20]), "grad": g.pick([5, 10]), "structured": g.pick([4, 20])}[fam]}
    n_max = {"ca": 150 * kw["iters"], "grad": 6000, "structured": 9000}[fam]
    if fam == "structured":
        kw.update(num_samples=1, optimise_hypers=g.pick([False, False, 2]))
        if jit:
            n_max = 9000
        else:
            kw["optimise_hypers"] = False
            n_max = 60000
    ops = []
    for _ in range(1 + (g.chance(0.4) if fam != "ca" else g.randrange(3))):
        op = {"exc": g.pick(["interrupt", "interrupt", "memory"]), "s": g.randrange(2**31)}
        k = g.weighted([("point", 5), ("site", 4), ("output", 1)])
        if k == "output":
            op["spec"] = {"mode": "output", "n": g.logint(1, 60)}
        else:
            op["spec"] = lib.gen_interrupt(g, n_max=n_max)
            if k == "site":
                f, name, lines = g.pick(FIT_SITES)
                op["spec"] = {"mode": "site", "name": name, "occ": g.logint(1, lines)}
        ops.append(op)
    return {"cfg": cfg, "fam": fam, "start": start, "kw": kw, "ops": ops, "data": g.randrange(10**6), "jit": jit}


# Where results get stored and stages begin; the rest is reached by counting.
FIT_SITES = [
    ("approx.py", "_fit_mean_field_ca", 400), ("approx.py", "Approximation.q_u", 60),
    ("approx.py", "Approximation.q_z", 60), ("approx.py", "fit", 120), ("approx.py", "fit.<locals>.gibbs_sample", 8000),
    ("approx.py", "Structured.q_u_samples", 3000), ("approx.py", "Structured.q_z_samples", 3000),
    ("approx.py", "fit.<locals>.objective", 40), ("approx.py", "_parametrise_natural", 60),
    ("model.py", "AbstractGPCM.__prior__", 80), ("gpcm.py", "GPCM.__prior__", 80),
    ("approx.py", "Structured.elbo_gibbs", 60), ("approx.py", "Approximation.ignore_qs", 30),
]


def valid(run, m, cfg, when):
    s = lib.snap(m)
    for n, v in s.items():
        run.check(np.all(np.isfinite(v)), "not_finite", lambda: f"{n} {when}")
        if n.endswith(".prec"):
            run.check(np.linalg.eigvalsh((v + v.T) / 2).min() > 0, "not_positive_definite", lambda: f"{n} {when}")
        if n.endswith(".samples"):
            run.check(v.ndim == 2 and v.shape[1] == 1000, "malformed_samples", lambda: f"{n}: {v.shape} {when}")
    return s


def use(run, m, cfg, t, y, when):
    """The model can be used."""
    s = lib.snap(m)
    mf = cfg["scheme"] != "structured"
    if mf and lib.has_q(s):
        e = lib.guard("unusable", lambda: lib.num(m.elbo(t, y)))
        run.check(np.isfinite(e), "unusable", when)
    if (mf and lib.has_q(s)) or ("q_u[0].samples" in s and "q_z[0].samples" in s):
        a, b = lib.guard("unusable", lambda: m.condition(t, y).predict_fourier())
        run.check(np.all(np.isfinite(lib.num(a))), "unusable", when)


def execute(run, plan):
    cfg, kw = plan["cfg"], plan["kw"]
    mf = cfg["scheme"] != "structured"
    if plan["start"] == "trained" and plan["fam"] != "grad":
        _, m, _ = states.trained(cfg["kind"], cfg["scheme"], 0 if cfg["T"] == 4.0 else 1)
    else:
        m = lib.build(cfg)
        if plan["start"] != "new":
            lib.qs(m)
    t, y = lib.data(cfg, plan["data"])
    learns = cfg["scheme"] != "mean-field-ca" and kw.get("optimise_hypers", True) is not False
    s0 = lib.snap(m)
    initialised = lib.has_q(s0)
    twin = copy.deepcopy(m)
    final = None
    if initialised:
        lib.guard("fit_failed", lambda: twin.fit(t, y, **kw))
        final = lib.snap(twin)
    for op in plan["ops"]:
        before = lib.snap(m)
        fired, out = lib.interrupted(run, op["spec"], lambda: m.fit(t, y, **kw), op["exc"])
        lib.unindent()
        s = valid(run, m, cfg, f"after {op['spec']}")
        lost = [n for n in before if n not in s]
        run.check(not lost, "variable_lost", str(lost))
        hyp = lib.hyper_names(before)
        if not learns:
            d = lib.diff_snap(before, s, names=hyp)
            run.check(not d, "hyperparameter_moved", str(d))
        if fired and final is not None and same_state(before, s0):
            # Each variable is the old or the new one.
            simple = not cfg["scheme"].startswith("mean-field-ca-") and cfg["scheme"] != "mean-field"
            for n in before:
                if n.startswith("q_") and not simple:
                    continue
                ok = lib.same(s[n], before[n], rtol=1e-9) or lib.same(s[n], final[n], rtol=1e-6, atol=1e-9)
                run.check(ok, "half_stored", lambda: f"{n} after {op['spec']}")
        if out[0] == "ok":
            run.probe("not_reached")
        use(run, m, cfg, t, y, "after the interrupt")
    s1 = lib.snap(m)
    e1 = elbo(m, t, y, 0) if mf else None
    lib.guard("refit_failed", lambda: m.fit(t, y, **kw))
    s2 = valid(run, m, cfg, "after the rerun")
    use(run, m, cfg, t, y, "after the rerun")
    if final is not None and same_state(s1, s0):
        d = lib.diff_snap(s2, final, rtol=1e-6, atol=1e-9)
        run.check(not d, "rerun_differs", lambda: f"{d}")
        run.probe("rerun_compared")
    elif e1 is not None:
        e2 = elbo(m, t, y, 0)
        run.check(e2[0] >= e1[0] - 1e-7 * (e1[1] + e2[1]), "rerun_lowered_elbo", lambda: f"{e1[0]} -> {e2[0]}")
    lib.log_snap(run, "end", s2)


def same_state(a, b):
    return not lib.diff_snap(a, b, rtol=1e-12)


def simplify(plan):
    if plan["kw"]["iters"] > 5:
        yield dict(plan, kw=dict(plan["kw"], iters=5))
    if plan["start"] == "trained":
        yield dict(plan, start="touched")
