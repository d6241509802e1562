"""C16: prior samples follow the model."""
import os

import numpy as np

from .. import lib, seams
from ..core import HarnessError, derive

META = {
    "runs": {"quick": 500, "thorough": 16000},
    "deadline": {"quick": 75, "thorough": 780},
    "level": "exploration",
    "rule": "one run = one model with seeded hyperparameters and history (training, interrupted training, saving and "
    "loading, changed hyperparameters, interrupted sampling), and 4000 prior samples, drawn two in a row from 2000 seeded "
    "random states, at seeded inputs; kernels are compared with the model's prior kernel, functions with the kernel they "
    "came with, consecutive samples with each other, and the same seeds with a new model of the same hyperparameters; "
    "non-trivial if samples were compared",
    "components": {
        "real": "gpcm, stheno, probmods, varz, lab and jax, with their real generators of random numbers",
        "stub": "clock, output stream; the seeds of the global random states are the simulator's; the samples of a run are "
        "computed by vectorising the real method over random states, which is compared with calling it",
    },
    "assumptions": [
        "statistical thresholds are such that correct code fails with probability below 1e-10 per run",
        "the integrals of the model are taken from its public methods",
    ],
}

X = 32.0  # All tests fail with probability at most about exp(-X) on correct code.
N = 2000


def gen(g, tier):
    kind = lib.KINDS[g.lane % 3]
    cfg = lib.gen_cfg(g, [kind], ["mean-field-ca"])
    if g.chance(0.3):
        cfg["noise"] = round(10 ** g.uniform(-1, 0.5), 3)
    n = 1 + (g.sub + g.lane) % 4
    if g.chance(0.2):
        n = cfg["n_u"]  # Where shared noise would have the same shape.
    lo = g.uniform(-1, 1)
    t = sorted(round(lo + g.uniform(0, cfg["T"]), 3) for _ in range(n))
    if n > 2 and g.chance(0.2):
        t[1] = t[0]
    return {
        "cfg": cfg, "t": t, "normalise": g.chance(0.4), "s": g.randrange(2**31),
        "hist": [g.pick(["fit", "interrupted_fit", "load", "hyper", "interrupted_sample", "elbo"]) for _ in range(g.pick([0, 1, 1, 2, 3]))],
        "n_int": g.logint(1, 1500), "iters": g.pick([1, 3]),
    }


def draw(run, m, t, normalise, seed):
    """Two consecutive prior samples for every one of N random states: [(K, y), (K, y)]."""
    import jax
    import jax.numpy as jnp
    import lab.jax as B

    def two(key):
        B.jax_global_random_state = key
        out = []
        for _ in range(2):
            K, y = m.sample(tt, normalise=normalise) if normalise else m.sample(tt)
            out.append((B.dense(K), B.dense(y)))
        return out

    tt = jnp.array(t)
    keys = jax.random.split(jax.random.PRNGKey(seed % 2**31), N)
    saved = seams.global_states()
    m()  # Make sure that all variables exist.
    eager = [[[lib.num(a) for a in p] for p in two(k)] for k in keys[:2]]
    try:
        res = jax.vmap(two)(keys)
        res = [[np.array(a) for a in p] for p in res]
    except Exception as e:
        run.probe("not_vectorised")
        res = None
    finally:
        seams.seed_globals(derive("after", seed))
    ok = res is not None and all(
        lib.same(res[i][j][k], eager[k][i][j], 1e-6) for i in range(2) for j in range(2) for k in range(2)
    )
    if not ok:
        # Something in there cannot be vectorised. Do it the slow way.
        run.probe("called_one_by_one")
        many = [two(k) for k in keys[:60]]
        res = [[np.array([lib.num(s[i][j]) for s in many]) for j in range(2)] for i in range(2)]
    return res


def quadratic_bound(w, n):
    """Bound on the deviation of the mean of n draws of sum_i w_i e_i^2 from its mean (Laurent and Massart)."""
    return 2 * np.sqrt(np.sum(w**2) * X / n) + 2 * np.max(np.abs(w)) * X / n


def ks(a, b):
    """Largest difference between empirical distribution functions."""
    a, b = np.sort(a), np.sort(b)
    x = np.concatenate([a, b])
    return np.max(np.abs(np.searchsorted(a, x, "right") / len(a) - np.searchsorted(b, x, "right") / len(b)))


def history(run, plan, m):
    cfg = plan["cfg"]
    for k, h in enumerate(plan["hist"]):
        run.log(h)
        s = derive(k, plan["s"])
        seams.seed_globals(s)
        t, y = lib.data(cfg, s % 1000)
        if h == "fit":
            m.fit(t, y, iters=plan["iters"])
        elif h == "interrupted_fit":
            lib.interrupted(run, {"mode": "count", "n": plan["n_int"]}, lambda: m.fit(t, y, iters=plan["iters"]))
            lib.unindent()
        elif h == "interrupted_sample":
            lib.interrupted(run, {"mode": "count", "n": max(plan["n_int"] // 10, 1)}, lambda: m.sample(np.array(plan["t"])))
            lib.unindent()
        elif h == "elbo":
            m.elbo(t, y)
        elif h == "load":
            p = os.path.join(run.scratch, "m.pickle")
            m()
            m.save(p)
            m = lib.build(cfg)
            m.load(p)
        elif h == "hyper":
            r = np.random.RandomState(s % 2**32)
            m()
            for n in lib.hyper_names(lib.snap(m)):
                if n in ("noise", "alpha", "gamma", "omega", "alpha_t", "lambda") and r.rand() < 0.6:
                    m.vs.assign(n, lib.num(m.vs[n]) * np.exp(0.4 * np.tanh(r.randn())))
    return m


def execute(run, plan):
    import jax.numpy as jnp

    cfg, t = plan["cfg"], np.array(plan["t"])
    n = len(t)
    m = history(run, plan, lib.build(cfg))
    norm = plan["normalise"]

    # What the model says.
    inst = m()
    tt = jnp.array(t)
    K0 = np.broadcast_to(lib.num(inst.compute_i_hx(tt[:, None], tt[None, :])), (n, n))
    K_u = lib.num(inst.compute_K_u())
    I = np.broadcast_to(lib.num(inst.compute_I_ux(tt, tt)), (n, n) + K_u.shape)
    L = np.linalg.cholesky(K_u)
    W = np.linalg.solve(L, np.swapaxes(np.linalg.solve(L, I.reshape(-1, *K_u.shape)), -1, -2))
    W = ((W + np.swapaxes(W, -1, -2)) / 2).reshape(n, n, *K_u.shape)
    noise = float(lib.num(inst.noise))

    # The same seeds in a new model of the same hyperparameters.
    s = lib.snap(m)
    other = lib.build({k: v for k, v in cfg.items() if not k.startswith("fix_")})
    other()
    names = lib.hyper_names(s)
    if set(names) <= set(other.vs.names) and not any(k.startswith("fix_") for k in cfg):
        for k in names:
            other.vs.assign(k, s[k])
        for sub in range(2):
            out = []
            for x in (m, other):
                seams.seed_globals(derive("same", sub, plan["s"]))
                out.append([lib.num(a) for a in x.sample(t, normalise=bool(sub))])
            run.check(all(lib.same(a, b, 1e-7) for a, b in zip(*out)), "prior_depends_on_more_than_hyperparameters",
                      lambda: f"after {plan['hist']}: {out}"[:800])
    seams.seed_globals(derive("norm", plan["s"]))
    A, _ = m.sample(t)
    seams.seed_globals(derive("norm", plan["s"]))
    Bn, _ = m.sample(t, normalise=True)
    A, Bn = lib.num(A), lib.num(Bn)
    run.check(lib.same(Bn, A / A[0, 0], 1e-9 + 1e-10 * K0[0, 0] / abs(A[0, 0])), "normalisation", lambda: f"{A} / {Bn}")

    res = draw(run, m, t, norm, derive("draw", plan["s"]))
    Ks = np.concatenate([r[0] for r in res])
    ys = np.concatenate([r[1] for r in res])
    N = len(Ks)
    run.log_array("K", Ks)
    run.log_array("y", ys)
    run.check(Ks.shape == (N, n, n) and ys.shape[0] == N and ys.size == N * n, "shape", f"{Ks.shape} {ys.shape}")
    ys = ys.reshape(N, n)
    run.check(np.isfinite(Ks).all() and np.isfinite(ys).all(), "not_finite")
    if not norm:  # Dividing by a small number would blow up rounding errors.
        size = np.abs(Ks).max(axis=(1, 2), keepdims=True) + np.abs(K0).max()
        run.check(np.all(np.abs(Ks - np.swapaxes(Ks, 1, 2)) <= 1e-7 * size), "asymmetric")
        ev = np.linalg.eigvalsh((Ks + np.swapaxes(Ks, 1, 2)) / 2)
        bad = ev[:, 0] < -1e-5 * size[:, 0, 0]
        run.check(not bad.any(), "not_positive_semi_definite", lambda: f"{ev[bad][:3]}")
    half = N // 2
    run.check(not np.any(np.all(ys[:half] == ys[half:], axis=1)), "consecutive_samples_equal")
    run.check(len(np.unique(ys[:, 0])) == N, "samples_repeat")

    # Distribution of the kernel.
    r = np.random.RandomState(plan["s"] % 2**32)
    e = r.randn(40000, len(K_u))
    ref = K0 - np.trace(W, axis1=2, axis2=3) + np.einsum("si,abij,sj->sab", e, W, e)
    if norm:
        ok = np.abs(Ks[:, 0, 0] - 1) < 1e-9
        run.check(ok.all(), "not_unit_power", lambda: str(Ks[~ok][:2]))
        ref = ref / ref[:, :1, :1]
    eps = np.sqrt(X / 2 / half) + np.sqrt(X / 2 / len(ref))
    for i in range(n):
        for j in range(i, n):
            if norm and t[i] == t[0] and t[j] == t[0]:
                continue
            for part in (Ks[:half], Ks[half:]):
                x, z = part[:, i, j], ref[:, i, j]
                if np.std(z) < 1e-6 * np.max(np.abs(K0)):
                    continue  # The kernel is all but certain here.
                d = ks(x, z)
                run.check(d <= eps, "distribution_of_kernel", lambda: f"({t[i]}, {t[j]}): distance {d:.3f} > {eps:.3f}; mean {x.mean()} / {z.mean()}")
                if not norm:
                    w = np.linalg.eigvalsh(W[i, j])
                    b = quadratic_bound(w, len(x)) + 1e-6 * np.abs(K0).max()
                    run.check(abs(x.mean() - K0[i, j]) <= b, "mean_of_kernel",
                              lambda: f"({t[i]}, {t[j]}): {x.mean():.5f}, but the prior kernel is {K0[i, j]:.5f}, bound {b:.5f}")

    # The function given its kernel.
    ev, Q = np.linalg.eigh((Ks + np.swapaxes(Ks, 1, 2)) / 2)
    var = np.maximum(ev, 0) + noise
    e = np.einsum("sji,sj->si", Q, ys) / np.sqrt(var)
    # Eigenvectors are determined up to their sign. Make it random.
    e *= r.choice([-1, 1], e.shape)
    for i in range(n):
        w = np.ones(1)
        d = abs(np.mean(e[:, i] ** 2) - 1)
        run.check(d <= quadratic_bound(w, N) + 1e-3, "covariance_of_function",
                  lambda: f"power {np.mean(e[:, i] ** 2):.3f} in eigendirection {i} of {n}, variances about {np.median(var[:, i]):.3g}, noise {noise}")
    for i in range(n):
        z = ys[:, i] / np.sqrt(np.maximum(Ks[:, i, i], 0) + noise)
        c = np.sqrt(2 * X / N)
        run.check(abs(np.mean(z)) <= c, "mean_of_function", lambda: f"{np.mean(z):.3f} > {c:.3f}")
        d = ks(z, r.randn(40000))
        run.check(d <= np.sqrt(X / 2 / half) + np.sqrt(X / 2 / 40000), "function_not_gaussian", lambda: f"distance {d:.3f}")
    # Consecutive samples.
    for i in range(n):
        z = ys[:, i] / np.sqrt(np.maximum(Ks[:, i, i], 0) + noise)
        a, b = z[:half], z[half:]
        c = abs(np.mean(a * b)) * np.sqrt(half)
        lim = np.sqrt(2 * X) + X / np.sqrt(half)
        run.check(c <= lim, "consecutive_functions_dependent", lambda: f"{c:.1f} standard errors")
        k = np.argsort(np.argsort(Ks[:, 0, i])) if not norm or t[i] != t[0] else None
        if k is not None:
            a, b = (np.argsort(np.argsort(q[:, 0, i])) for q in (Ks[:half], Ks[half:]))
            c = abs(np.corrcoef(a, b)[0, 1]) * np.sqrt(half)
            run.check(c <= lim, "consecutive_kernels_dependent", lambda: f"{c:.1f} standard errors")
    # Neither does the function follow the kernel in any other way.
    if not norm:
        k = Ks[:, 0, 0]
        k = (np.argsort(np.argsort(k)) + 0.5) / N - 0.5
        z = ys[:, 0] / np.sqrt(np.maximum(Ks[:, 0, 0], 0) + noise)
        c = abs(np.mean(k * z)) * np.sqrt(12 * N)
        run.check(c <= np.sqrt(2 * X) + X / np.sqrt(N), "sign_of_function_depends_on_kernel", lambda: f"{c:.1f} standard errors")
    # Given the kernel, whitened functions are independent of it.
    from scipy.special import erf

    size = np.abs(Ks).max(axis=(1, 2), keepdims=True)
    S = (Ks + np.swapaxes(Ks, 1, 2)) / 2 + noise * np.eye(n)
    ev, Q = np.linalg.eigh(S)
    ev = np.maximum(ev, noise)
    S = np.einsum("sij,sj,skj->sik", Q, ev, Q)
    white = np.linalg.solve(np.linalg.cholesky(S), ys[:, :, None])[:, :, 0]
    sq = np.concatenate([e, white], axis=1) ** 2
    v = erf(np.sqrt(sq / 2)) - 0.5  # Uniform.
    lim = np.sqrt(2 * X / 144 / N) + X / 12 / N + 0.002
    for i in range(n):
        for j in range(i, n):
            k = Ks[:, i, j]
            if np.std(k) < 1e-6 * np.max(np.abs(K0)) or np.std(k) < 1e-9:
                continue
            k = (np.argsort(np.argsort(k)) + 0.5) / N - 0.5
            d = np.abs(k @ v) / N
            run.check(d.max() <= lim, "function_depends_on_kernel", lambda: f"({t[i]}, {t[j]}): {np.round(d, 4)} > {lim:.4f}")
    run.probe("samples", N)


def simplify(plan):
    for i in range(len(plan["hist"])):
        yield dict(plan, hist=plan["hist"][:i] + plan["hist"][i + 1:])
    for i in range(len(plan["t"])):
        if len(plan["t"]) > 1:
            yield dict(plan, t=plan["t"][:i] + plan["t"][i + 1:])
    if plan["normalise"]:
        yield dict(plan, normalise=False)
