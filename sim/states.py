"""Library of trained models used as starting points. Every entry is a function of its
key and the code under test only, so that a run does not depend on what its process did
before."""
import copy

from . import lib, seams

_cache = {}
SYS = {}


def cfgs(kind, scheme, variant):
    w, s, nz, T = [(1.0, 0.5, 0.05, 4.0), (1.4, 0.6, 0.2, 3.0)][variant]
    return {
        "kind": kind, "scheme": scheme, "window": w, "scale": s, "noise": nz,
        "n_u": 5, "n_z": 5, "T": T,
    }


def trained(kind, scheme, variant, dseed=0, **fit_kw):
    """(cfg, a private copy of the trained model, data)."""
    key = (kind, scheme, variant, dseed, tuple(sorted(fit_kw.items())))
    if key not in _cache:
        import jax
        import lab as B
        import numpy as np

        np_state, jx = np.random.get_state(), B.jax_global_random_state
        jit = B.jit
        seams.set_jit(scheme == "structured")
        np.random.seed(12345 + dseed)
        B.jax_global_random_state = jax.random.PRNGKey(99)
        cfg = cfgs(kind, scheme, variant)
        m = lib.build(cfg)
        t, y = lib.data(cfg, 1000 + dseed)
        kw = dict(fit_kw)
        if scheme == "structured":
            kw = {"iters": 20, "optimise_hypers": False, "num_samples": 1, **kw}
        else:
            kw = {"iters": 10, **kw}
        m.fit(t, y, **kw)
        _cache[key] = (cfg, m, (t, y))
        np.random.set_state(np_state)
        B.jax_global_random_state = jx
        B.jit = jit
    cfg, m, d = _cache[key]
    return dict(cfg), copy.deepcopy(m), d
