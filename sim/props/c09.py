"""C09: structured training stores a genuine Gibbs chain."""
import os

import numpy as np

from .. import lib

META = {
    "runs": {"quick": 110, "thorough": 6000},
    "deadline": {"quick": 80, "thorough": 780},
    "level": "exploration",
    "rule": "one run = one model with the structured approximation taken through a seeded history of fits, "
    "interrupted fits, changed data and hyperparameters, saves and loads; after every fit the thousand stored "
    "samples are whitened with the exact conditionals (NumPy reference) and the residuals tested for being "
    "independent standard normals; non-trivial if a chain was tested",
    "components": {
        "real": "gpcm, probmods, varz, lab, jax (compiled), files",
        "stub": "clock, output stream, global random seeds",
    },
    "assumptions": [
        "the model's integrals are taken as given (C19)",
        "statistical comparisons alarm beyond 6.5 standard errors",
        "chains thinned because of more than 2000 iterations are tested in one of the two conditionals only",
    ],
}

KINDS = ["GPCM", "CGPCM", "RGPCM", "GPCM", "CGPCM", "RGPCM", "GPCM", "CGPCM"]


def gen(g, tier):
    kind = KINDS[g.lane]
    learn = g.lane >= 6 and g.chance(0.6)
    cfg = lib.gen_cfg(g, [kind], ["structured"], flags=False)
    if g.chance(0.3):
        cfg[g.pick(["fix_noise", "fix_window", "fix_scale"])] = True
    ops = []
    if learn:
        # A poor start for the noise.
        cfg.pop("fix_noise", None)
        cfg["noise"] = g.pick([3.0, 6.0, 10.0])
        ops.append({"op": "fit", "d": 0, "n": 16, "iters": g.pick([20, 60]), "hypers": g.pick([40, 60]), "samples": g.pick([1, 3])})
    for k in range(g.randrange(1, 3) if not learn else g.randrange(2)):
        o = g.weighted([("fit", 5), ("hyper", 2), ("reload", 1.5), ("interrupted", 1.2)])
        ops.append({"op": o, "s": g.randrange(2**31), "d": g.randrange(3), "n": g.pick([8, 8, 8, 1, 16]),
                    "iters": g.pick([2, 5, 30, 999, 1000, 1500, 1999, 2000, 3100] if not k else [2, 30]),
                    "spec": lib.gen_interrupt(g, n_max=20000), "hypers": False, "samples": 1})
    if not learn:
        ops.append({"op": "fit", "d": g.randrange(3), "n": g.pick([8, 8, 16, 3]), "iters": g.pick([2, 3, 10, 100, 2500]),
                    "hypers": g.chance(0.04) and 3, "samples": 2})
    return {"cfg": cfg, "ops": ops, "data": g.randrange(10**6), "jit": True}


def z_of(x, sd):
    return x / np.maximum(sd, 1e-300)


def residuals(r, given, draws, which):
    """Whitened residuals of draws from their conditional given `given`."""
    out = []
    for x, d in zip(given, draws):
        q = (lib.opt_u if which == "u" else lib.opt_z)(r, x, np.outer(x, x))
        out.append(q.L.T @ (d - q.mean))
    return np.array(out)


def normality(run, e, tag):
    """Residuals must be independent standard normals."""
    n, d = e.shape
    worst = []
    run.check(np.all(np.isfinite(e)), "samples_not_finite", tag)
    worst.append(("mean", np.max(np.abs(e.mean(0))) * np.sqrt(n)))
    worst.append(("variance", np.max(np.abs((e**2).mean(0) - 1)) * np.sqrt(n / 2)))
    c = e.T @ e / n
    off = c - np.diag(np.diag(c))
    worst.append(("correlation", np.max(np.abs(off)) * np.sqrt(n)))
    a = e[1:].T @ e[:-1] / (n - 1)
    worst.append(("autocorrelation", np.max(np.abs(a)) * np.sqrt(n - 1)))
    s = (e**2).sum(1)
    worst.append(("total", abs(s.mean() - d) / np.sqrt(2 * d / n)))
    # Kolmogorov-Smirnov on everything.
    from scipy.special import ndtr

    x = np.sort(ndtr(e.ravel()))
    m = len(x)
    ks = np.max(np.maximum(np.arange(1, m + 1) / m - x, x - np.arange(m) / m)) * np.sqrt(m)
    worst.append(("distribution", ks * 6.5 / 3.4))  # P(K > 3.4) < 2e-10.
    return worst


def chain(run, r, us, zs, thinned):
    """Test the stored chain for both orders of the two draws within a step."""
    res = {}
    for order in ("uz", "zu"):
        a, b = (us, zs) if order == "uz" else (zs, us)
        eb = residuals(r, a, b, order[1])
        tests = [("second",) + t for t in normality(run, eb, "second")]
        if not thinned:
            ea = residuals(r, b[:-1], a[1:], order[0])
            tests += [("first",) + t for t in normality(run, ea, "first")]
            # Noise must be fresh at every draw.
            n = len(ea)
            for lag, x, y in [("within a step", ea, eb[1:]), ("between steps", eb[:-1], ea)]:
                c = x.T @ y / n
                tests.append((lag, "cross-correlation", np.max(np.abs(c)) * np.sqrt(n)))
                s, t = (x**2).sum(1) - x.shape[1], (y**2).sum(1) - y.shape[1]
                sd = np.sqrt(2 * x.shape[1] * 2 * y.shape[1])
                # Products of chi-squares have heavy tails.
                tests.append((lag, "correlation of sizes", abs((s * t).mean()) * np.sqrt(n) / sd * 0.6))
        res[order] = max(tests, key=lambda t: t[-1])
    return res


def mf_optimum(r, iters=300):
    """The mean-field optimum at these hyperparameters."""
    best = -np.inf
    rs = np.random.RandomState(1)
    for _ in range(3):
        m, m2 = rs.randn(r.nz), None
        m2 = np.outer(m, m)
        for _ in range(iters):
            qu = lib.opt_u(r, m, m2)
            qz = lib.opt_z(r, qu.mean, qu.m2)
            m, m2 = qz.mean, qz.m2
        best = max(best, lib.elbo_terms(r, qu, qz)[0])
    return best


def execute(run, plan):
    cfg = plan["cfg"]
    m = lib.build(cfg)
    loaded = False
    for k, op in enumerate(plan["ops"]):
        lib.unindent()
        o = op["op"]
        run.log(o, op["n"], op["iters"])
        t, y = lib.data(cfg, plan["data"] + op["d"], op["n"])
        hypers = op["hypers"] if not loaded else False
        kw = {"iters": op["iters"], "optimise_hypers": hypers, "num_samples": op["samples"]}
        if o == "fit":
            before = mf_optimum(lib.terms(m(), t, y)) if hypers and hypers > 20 else None
            lib.guard("fit_failed", lambda: m.fit(t, y, **kw))
            s = lib.snap(m)
            run.check("q_u[0].samples" in s and "q_z[0].samples" in s, "no_samples_stored", str(list(s)))
            us, zs = s["q_u[0].samples"].T, s["q_z[0].samples"].T
            run.check(len(us) == len(zs) == 1000, "not_a_thousand_samples", f"{len(us)}, {len(zs)}")
            run.check(np.all(np.isfinite(us)) and np.all(np.isfinite(zs)), "samples_not_finite")
            for tag, x in (("u", us), ("z", zs)):
                run.check(len(np.unique(x, axis=0)) == 1000, "repeated_sample", lambda: f"{tag}: {len(np.unique(x, axis=0))} distinct")
            r = lib.terms(m(), t, y)
            run.check(us.shape[1] == r.nu and zs.shape[1] == r.nz, "wrong_shape", f"{us.shape} {zs.shape}")
            thinned = op["iters"] >= 2000
            res = chain(run, r, us, zs, thinned)
            run.log_array("us", us)
            run.log("worst", res["uz"][:2], f"{res['uz'][-1]:.3g}")
            run.check(min(x[-1] for x in res.values()) < 6.5, "not_a_gibbs_chain",
                      lambda: f"fit {k} (iters {op['iters']}, hypers {hypers}): {res}")
            run.probe("chain_thinned" if thinned else "chain")
            if before is not None:
                after = mf_optimum(r)
                run.probe("learned")
                run.log("elbo", f"{before:.6g}", f"{after:.6g}")
                run.check(after > before, "learning_lowered_elbo", lambda: f"{before:.6g} -> {after:.6g}")
        elif o == "hyper":
            r = np.random.RandomState(op["s"])
            names = [n for n in lib.hyper_names(lib.snap(m)) if n in ("noise", "alpha", "gamma", "omega", "alpha_t", "lambda")]
            if names:
                n = names[op["s"] % len(names)]
                m.vs.assign(n, lib.num(m.vs[n]) * np.exp(0.3 * np.tanh(r.randn())))
        elif o == "reload":
            path = os.path.join(run.scratch, "m.pickle")
            m.save(path)
            m = lib.build(cfg)
            if op["s"] % 2:
                m()
            lib.guard("load_failed", lambda: m.load(path))
            loaded = True
            run.probe("reloaded")
        elif o == "interrupted":
            lib.interrupted(run, op["spec"], lambda: m.fit(t, y, iters=20, optimise_hypers=False))


def simplify(plan):
    for i, op in enumerate(plan["ops"]):
        if op["iters"] > 2 and not op["hypers"]:
            yield dict(plan, ops=plan["ops"][:i] + [dict(op, iters=2)] + plan["ops"][i + 1:])
