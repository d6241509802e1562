"""C15: predictions are the moments of the stored posterior."""
import os

import numpy as np

from .. import lib, states

META = {
    "runs": {"quick": 150, "thorough": 9000},
    "deadline": {"quick": 80, "thorough": 780},
    "level": "exploration",
    "rule": "one run = one model taken through a seeded history (training, interrupted training, changed posterior "
    "and hyperparameters, streaming, save and load) with predictions of function, kernel, spectrum, features and "
    "filter in between, each compared with a NumPy reference computed from the stored variables; exactly where the "
    "prediction is exact, in distribution where it is sampled; non-trivial if a prediction was compared",
    "components": {
        "real": "gpcm, stheno, probmods, varz, lab, jax, files",
        "stub": "clock, output stream, global random seeds",
    },
    "assumptions": [
        "the model's integrals are taken as given (C19)",
        "statistical comparisons alarm beyond 7 standard errors",
        "the filter of the RGPCM, the minimum-phase version of filters, and the variance in decibel are not judged",
    ],
}


def gen(g, tier):
    kind, fam = lib.lane(g, ("ca", "structured"))
    if g.lane in (5, 6):
        fam = "ca"
    structured = fam == "structured"
    ops = []
    for k in range(g.randrange(2, 6)):
        if structured:
            o = g.weighted([("read", 6), ("fit", 0.6), ("hyper", 1.5), ("reload", 1), ("interrupted", 0.5)])
        else:
            o = g.weighted([("read", 6), ("fit", 1.5), ("hyper", 1.5), ("perturb", 2), ("reload", 1), ("stream", 1), ("interrupted", 0.7)])
        op = {"op": o, "s": g.randrange(2**31), "d": g.randrange(3), "prior": g.chance(0.15)}
        if o == "read":
            op["what"] = g.weighted([("predict", 4), ("kernel", 2), ("samples", 1), ("psd", 2), ("fourier", 2), ("filter", 2)])
            op["n"] = g.pick([300, 1000, 1000])
            op["default"] = g.chance(0.15)
        elif o == "interrupted":
            op["spec"] = lib.gen_interrupt(g, n_max=4000)
        ops.append(op)
    ops.append({"op": "read", "what": g.pick(["predict", "kernel", "psd", "fourier", "filter"]), "n": 1000,
                "s": g.randrange(2**31), "d": g.randrange(3), "prior": False, "default": False})
    return {"kind": kind, "structured": structured, "variant": g.randrange(2), "d": g.randrange(2), "ops": ops,
            "fresh": g.chance(0.15), "jit": True}


def draw(q, n, r):
    return q.mean + np.linalg.solve(q.L.T, r.randn(len(q.mean), n)).T


class Post:
    """What the current posterior (or prior) for u or z is."""

    def __init__(self, m, which, depth, structured):
        s = lib.snap(m)
        inst = m()
        K = lib.num(inst.compute_K_u() if which == "u" else inst.compute_K_z())
        self.q = self.x = None
        if depth == 0:
            self.q = lib.G(np.zeros(len(K)), K)
        elif structured:
            self.x = s[f"q_{which}[{depth - 1}].samples"].T
        else:
            self.q = lib.stored_q(s, which, depth - 1)

    def ref(self, n, r):
        """(samples, are these exactly the ones predictions are made of)"""
        if self.x is not None:
            return self.x, True
        return draw(self.q, n, r), False

    @property
    def mean(self):
        return self.x.mean(0) if self.x is not None else self.q.mean

    @property
    def var(self):
        return np.cov(self.x.T, bias=True) if self.x is not None else self.q.var


def moments_close(run, kind, got, ref, exact, n, what, rel=1e-6):
    """Compare samples (n x p) with reference samples (m x p): same multiset if exact,
    same distribution otherwise."""
    scale = np.abs(ref).max() + 1e-12
    if exact:
        run.check(got.shape[0] == ref.shape[0], kind, lambda: f"{what}: {got.shape} samples, {ref.shape} expected")
        a, b = np.sort(got, 0), np.sort(ref, 0)
        e = np.abs(a - b) - rel * np.abs(b)
        run.check(np.all(e <= 1e-6 * scale), kind, lambda: f"{what}: samples differ by {np.abs(a - b).max():.3g} of {scale:.3g}")
        return
    run.check(got.shape[0] == n, kind, lambda: f"{what}: {got.shape[0]} samples, {n} requested")
    m = ref.shape[0]
    sd = ref.std(0)
    se = sd * np.sqrt(1 / n + 1 / m)
    e = np.abs(got.mean(0) - ref.mean(0))
    run.check(np.all(e <= 7 * se + rel * np.abs(ref).mean(0) + 1e-6 * scale), kind,
              lambda: f"{what}: mean {got.mean(0)[:6]} should be {ref.mean(0)[:6]} +- {se[:6]}")
    # The spread, through the quantiles.
    for p in (0.1, 0.5, 0.9):
        qs = np.quantile(got, p, axis=0)
        tol = 7 * np.sqrt(p * (1 - p) * (1 / n + 1 / m)) + 1 / n
        slack = 1e-6 * scale + rel * np.abs(qs)
        lo, hi = (ref < qs - slack).mean(0), (ref <= qs + slack).mean(0)
        run.check(np.all((lo <= p + tol) & (hi >= p - tol)), kind,
                  lambda: f"{what}: the {p}-quantile is at {lo[:6]} - {hi[:6]}")


def summary(run, kind, pred, x, db=False):
    """A summary must summarise its samples."""
    lin = (lambda v: 10 ** (np.asarray(v) / 10)) if db else np.asarray
    s = lin(pred.all_samples)
    run.check(np.allclose(np.asarray(pred.x), x, rtol=1e-9, atol=1e-9), kind, "wrong inputs")
    run.check(s.shape[0] == len(x), kind, f"shape of samples {s.shape}")
    run.check(np.all(np.isfinite(s)), kind, "samples not finite")
    tol = 1e-8 * (np.abs(s).max() + 1e-12)
    run.check(np.all(np.abs(s.mean(1) - lin(pred.mean)) <= tol), kind, "mean is not the mean of the samples")
    if not db:
        run.check(np.all(np.abs(s.var(1) - np.asarray(pred.var)) <= tol**2 + 1e-6 * s.var(1) + 1e-14 * np.max(s**2)), kind,
                  "var is not the variance of the samples")
    for name, p in [("68", 0.16), ("95", 0.025), ("99", 0.0015)]:
        for side, p in (("lower", p), ("upper", 1 - p)):
            got = lin(getattr(pred, f"err_{name}_{side}"))
            lo, hi = np.quantile(s, p, axis=1, method="lower"), np.quantile(s, p, axis=1, method="higher")
            run.check(np.all((got >= lo - tol) & (got <= hi + tol)), kind, lambda: f"err_{name}_{side} is not the {p}-quantile")
    for c in lin(pred.samples).T:
        run.check(np.min(np.max(np.abs(s - c[:, None]), 0)) <= tol, kind, "an example sample is not a sample")


def k_h(inst, a, b):
    al, ga, at = [float(lib.num(getattr(inst, n))) for n in ("alpha", "gamma", "alpha_t")]
    a, b = a[:, None], b[None, :]
    return at**2 * np.exp(-al * (a**2 + b**2) - ga * (a - b) ** 2)


def extent(inst, kind):
    return float(lib.num(inst.extent))


def read(run, m, op, depth, structured, cond, cfg):
    r = np.random.RandomState(op["s"])
    inst = m()
    what = op["what"]
    kind = cfg["kind"]
    n = op["n"]
    exact_n = structured and depth > 0
    if exact_n:
        n = 1000
    run.probe(("prior_" if depth == 0 else "") + what)
    if what == "predict":
        if structured and depth == 0:
            return
        t = np.sort(r.uniform(-1, cfg["T"] + 1, r.choice([1, 5])))
        if r.rand() < 0.3:
            t[-1] = t[0]  # Twice the same input.
        got = lib.guard("predict_failed", lambda: m.predict(t))
        mean, var = lib.num(got[0]), lib.num(got[1])
        if structured:
            want = lib.predict_ref(inst, t, lib.snap(m), cond, depth - 1, "structured")
        elif depth == 0:
            T = lib.terms(inst, t)
            pu, pz = lib.G(np.zeros(T.nu), T.K_u), lib.G(np.zeros(T.nz), T.K_z)
            m1, m2 = lib.moments_f(T, pu.mean, pu.m2, pz.mean, pz.m2)
            want = m1, m2 - m1**2 + T.noise, T.noise + np.abs(m2)
        else:
            want = lib.predict_ref(inst, t, lib.snap(m), None, depth - 1)
        run.log_array("mean", mean)
        tol = 1e-6 * want[2]
        run.check(mean.shape == var.shape == t.shape, "wrong_function_prediction", f"shapes {mean.shape} {var.shape}")
        run.check(np.all(np.abs(mean - want[0]) <= tol + 1e-6 * np.sqrt(want[2])), "wrong_function_prediction",
                  lambda: f"mean {mean} should be {want[0]}")
        run.check(np.all(np.abs(var - want[1]) <= tol), "wrong_function_prediction", lambda: f"var {var} should be {want[1]}")
    elif what in ("kernel", "samples"):
        tk = np.linspace(0, r.uniform(0.5, 2) * extent(inst, kind), 12)
        if what == "kernel":
            pred = lib.guard("predict_kernel_failed",
                             lambda: m.predict_kernel(num_samples=n) if op["default"] else m.predict_kernel(tk, num_samples=n))
            if op["default"]:
                tk = np.asarray(pred.x)
                run.check(tk[0] == 0 and np.all(np.diff(tk) > 0), "wrong_kernel_prediction", "default lags")
            summary(run, "wrong_kernel_prediction", pred, tk)
            ks = np.asarray(pred.all_samples).T
        else:
            x, ks = lib.guard("sample_kernel_failed", lambda: m.sample_kernel(tk, num_samples=n))
            run.check(np.allclose(lib.num(x), tk), "wrong_kernel_prediction", "inputs")
            ks = lib.num(ks)
        us, exact = Post(m, "u", depth, structured).ref(6000, r)
        ix = np.unique(np.linspace(0, len(tk) - 1, 12).astype(int))
        ref = lib.kernel_ref(inst, tk[ix], us.T)
        run.log_array("ks", ks)
        moments_close(run, "wrong_kernel_prediction", ks[:, ix], ref, exact, n, "kernel")
    elif what == "psd":
        tk = np.linspace(0, 2 * extent(inst, kind), 240)
        n = n if exact_n else 300
        pred = lib.guard("predict_psd_failed", lambda: m.predict_psd(tk, num_samples=n))
        f = np.asarray(pred.x)
        summary(run, "wrong_psd_prediction", pred, f, db=True)
        dt = tk[1] - tk[0]
        run.check(f[0] == 0 and np.all(np.diff(f) > 0) and 0.99 * 0.5 / dt < f[-1] < 1.01 * 0.5 / dt, "wrong_psd_prediction", "frequencies")
        us, exact = Post(m, "u", depth, structured).ref(2000, r)
        k = lib.kernel_ref(inst, tk, us.T)
        # Below the Nyquist frequency, where the spectrum matters.
        ix = np.unique(np.linspace(0, len(f) // 12, 10).astype(int))
        w = np.where(np.arange(len(tk)) == 0, 1, 2)
        psd = dt * np.abs((k * w) @ np.cos(2 * np.pi * np.outer(tk, f[ix])))
        # The full spectrum, for the power.
        full = np.fft.rfft(np.concatenate([k, np.zeros((len(k), 8000)), k[:, :0:-1]], 1), axis=1).real
        power = 2 * np.abs(full).mean(1)
        psd *= (k[:, 0] / (power / 2))[:, None]
        got = 10 ** (np.asarray(pred.all_samples).T / 10)[:, ix]
        run.log_array("psd", got)
        run.check(np.all(np.isfinite(got)) and np.all(got >= 0), "wrong_psd_prediction", "not positive")
        if exact:
            a, b = np.sort(got, 0), np.sort(psd, 0)
            run.check(a.shape == b.shape and np.all(np.abs(a - b) <= 3e-2 * b + 1e-2 * psd.mean(0)), "wrong_psd_prediction",
                      lambda: f"{a.mean(0)} should be {b.mean(0)}")
        else:
            moments_close(run, "wrong_psd_prediction", got, psd, False, n, "spectrum", rel=1e-2)
    elif what == "fourier":
        got = lib.guard("predict_fourier_failed", lambda: m.predict_fourier(num_samples=n))
        mean, var = lib.num(got[0]), lib.num(got[1])
        p = Post(m, "z", depth, structured)
        want, wvar = p.mean, np.diag(p.var)
        run.check(mean.shape == var.shape == want.shape, "wrong_fourier_prediction", f"shapes {mean.shape} {var.shape}")
        run.log_array("fourier", mean)
        if structured and depth == 0:
            run.check(np.all(np.abs(mean - want) <= 7 * np.sqrt(wvar / n)), "wrong_fourier_prediction", lambda: f"mean {mean}")
            run.check(np.all(np.abs(var / wvar - 1) <= 7 * np.sqrt(2 / n) + 2 / n), "wrong_fourier_prediction", lambda: f"var {var} / {wvar}")
        else:
            sc = np.sqrt(wvar + want**2)
            run.check(np.all(np.abs(mean - want) <= 1e-7 * sc), "wrong_fourier_prediction", lambda: f"mean {mean} should be {want}")
            run.check(np.all(np.abs(var - wvar) <= 1e-7 * sc**2 + 1e-7 * np.max(wvar)), "wrong_fourier_prediction", lambda: f"var {var} should be {wvar}")
    elif what == "filter" and kind != "RGPCM":
        e = extent(inst, kind) / 2
        th = np.linspace(-0.6 * e, e, 9)
        n = n if exact_n else 300
        pred = lib.guard("predict_filter_failed", lambda: m.predict_filter(th, num_samples=n, min_phase=False))
        summary(run, "wrong_filter_prediction", pred, th)
        h = np.asarray(pred.all_samples).T
        run.log_array("h", h)
        tu = lib.num(inst.t_u)
        K = k_h(inst, tu, tu)
        Kt = k_h(inst, th, tu)
        us, _ = Post(m, "u", depth, structured).ref(4000, r)
        V = k_h(inst, th, th) - Kt @ np.linalg.solve(K, Kt.T)
        # (Every stored sample once, so repeat them with fresh noise.)
        us = np.concatenate([us] * 4) if exact_n else us
        ref = us @ Kt.T + r.randn(len(us), len(th)) * np.sqrt(np.maximum(np.diag(V), 0))
        if kind == "CGPCM":
            ref = ref * (th >= 0)
        # What is sampled around the stored samples is random.
        scale = np.abs(ref).max()
        run.check(h.shape[0] == n, "wrong_filter_prediction", f"{h.shape[0]} samples")
        run.check(np.all(h[:, np.all(ref == 0, 0)] == 0), "wrong_filter_prediction", "filter is not causal")
        # Regularisation adds a little noise.
        h, ref = h / scale, ref / scale
        h = h + 1e-4 * r.randn(*h.shape)
        ref = ref + 1e-4 * r.randn(*ref.shape)
        moments_close(run, "wrong_filter_prediction", h, ref, False, h.shape[0], "filter", rel=2e-3)


def execute(run, plan):
    from gpcm.normal import NaturalNormal
    import jax.numpy as jnp

    structured = plan["structured"]
    scheme = "structured" if structured else "mean-field-ca"
    cfg, root, (t0, y0) = states.trained(plan["kind"], scheme, plan["variant"], plan["d"])
    if plan["fresh"] and not structured:
        root = lib.build(cfg)
        lib.qs(root)
    m = root  # The model being trained, with `depth` batches behind it.
    depth = 0
    for k, op in enumerate(plan["ops"]):
        lib.unindent()
        o = op["op"]
        r = np.random.RandomState(op["s"])
        t, y = lib.data(cfg, op["s"] % 1000 + op["d"], [8, 1, 5][op["d"]] if not structured else 8)
        run.log(o, op.get("what"), depth)
        if o == "read":
            if op["prior"] and depth == 0:
                read(run, m, op, 0, structured, None, cfg)
            else:
                if not structured and not lib.has_q(lib.snap(m), depth):
                    continue
                p = lib.guard("condition_failed", lambda: m.condition(t, y))
                before = lib.snap(m)
                read(run, p, op, depth + 1, structured, (t, y), cfg)
                run.check(not lib.diff_snap(before, lib.snap(m)), "prediction_changed_variable")
        elif o == "fit":
            kw = {"optimise_hypers": False, "num_samples": 1, "iters": 10} if structured else {"iters": 1 + op["s"] % 4}
            lib.guard("fit_failed", lambda: m.fit(t, y, **kw))
        elif o == "interrupted":
            kw = {"optimise_hypers": False, "num_samples": 1, "iters": 10} if structured else {"iters": 3}
            lib.interrupted(run, op["spec"], lambda: m.fit(t, y, **kw))
        elif o == "hyper":
            names = [n for n in lib.hyper_names(lib.snap(m)) if n in ("noise", "alpha", "gamma", "omega", "alpha_t", "lambda")]
            n = names[op["s"] % len(names)]
            m.vs.assign(n, lib.num(m.vs[n]) * np.exp(0.2 * np.tanh(r.randn())))
        elif o == "perturb" and lib.has_q(lib.snap(m), depth):
            a = m().approximation
            size = 10 ** r.uniform(-2, 0)
            for w in "uz":
                q = lib.stored_q(lib.snap(m), w, depth)
                n = len(q.lam)
                A = r.randn(n, n) * size
                setattr(a, "q_" + w, NaturalNormal(
                    jnp.array(q.lam[:, None] + size * r.randn(n, 1)), jnp.array(q.prec + A @ A.T)))
        elif o == "stream" and lib.has_q(lib.snap(m), depth) and depth < 2:
            m = m.condition(t, y)
            depth += 1
            run.probe("streamed")
        elif o == "reload" and depth == 0:
            path = os.path.join(run.scratch, "m.pickle")
            m.save(path)
            m = lib.build(cfg)
            if op["s"] % 2:
                m()
            lib.guard("load_failed", lambda: m.load(path))
            run.probe("reloaded")


def simplify(plan):
    for i, op in enumerate(plan["ops"]):
        if op.get("default"):
            yield dict(plan, ops=plan["ops"][:i] + [dict(op, default=False)] + plan["ops"][i + 1:])
