"""Reads of a model whose results are compared between executions."""
import numpy as np

from . import lib, seams

DET_MF = ["predict", "fourier", "elbo_state", "kernel_matrix", "snap"]
DET_STRUCTURED = ["predict", "fourier", "kernel", "samples", "kernel_matrix", "snap"]
RANDOM = ["kernel", "samples", "psd", "filter", "filter_min"]


def flat(pred, random_columns=False):
    """A summary as arrays, but for the randomly chosen examples unless asked for."""
    names = ["x", "mean", "var", "err_68_lower", "err_68_upper", "err_95_lower", "err_95_upper",
             "err_99_lower", "err_99_upper", "all_samples"] + (["samples"] if random_columns else [])
    return {n: np.array(getattr(pred, n), float) for n in names}


def read(m, what, cfg, s, n=8, seeded=True, columns=None):
    """One read with globally seeded randomness: a dictionary of arrays."""
    import jax.numpy as jnp
    import lab.jax as B

    r = np.random.RandomState(s % 2**32)
    columns = seeded if columns is None else columns
    if seeded:
        seams.seed_globals(s)
    if what == "predict":
        t = np.sort(r.uniform(0, cfg["T"], 3))
        kw = {"num_samples": n} if cfg["scheme"] == "structured" else {}
        a, b = m.predict(t, **kw)
        return {"mean": lib.num(a), "var": lib.num(b)}
    if what == "fourier":
        a, b = m.predict_fourier(num_samples=n)
        return {"mean": lib.num(a), "var": lib.num(b)}
    if what == "elbo_state":
        t, y = lib.data(cfg, s % 1000)
        st = B.create_random_state(np.float64, seed=s % 2**31)
        return {"elbo": lib.num(m.elbo(st, t, y)[1])}
    if what == "kernel_matrix":
        i = m() if not m.instantiated else m
        t = jnp.array(np.sort(r.uniform(0, 1, 3)))
        return {"k": lib.num(i.kernel_approx(t, t, jnp.array(r.randn(i.n_u))))}
    if what == "snap":
        return {} if m.instantiated else dict(lib.snap(m))
    tk = np.linspace(0, 2 * cfg["window"], 6)
    if what == "kernel":
        return flat(m.predict_kernel(tk, num_samples=n), columns)
    if what == "samples":
        x, k = m.sample_kernel(tk, num_samples=n)
        return {"x": lib.num(x), "k": lib.num(k)}
    if what == "psd":
        return flat(m.predict_psd(tk, num_samples=n), columns)
    if what in ("filter", "filter_min"):
        th = np.linspace(-cfg["window"], cfg["window"], 7)
        return flat(m.predict_filter(th, num_samples=n, min_phase=what == "filter_min"), columns)
    if what == "sample":
        K, y = m.sample(np.linspace(0, 2, 4), normalise=bool(s % 2))
        return {"K": lib.num(K), "y": lib.num(y)}
    if what == "elbo":
        t, y = lib.data(cfg, s % 1000)
        kw = {"num_samples": n} if cfg["scheme"] == "structured" else {}
        return {"elbo": lib.num(m.elbo(t, y, **kw))}
    raise ValueError(what)


def differences(a, b, rtol=0.0):
    """Names of the arrays in which two results differ."""
    return [k for k in sorted(set(a) | set(b)) if k not in a or k not in b or not lib.same(a[k], b[k], rtol)]


def log(run, tag, r):
    for k in sorted(r):
        run.log_array(f"{tag}.{k}", r[k])
