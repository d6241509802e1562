"""Shared pieces of the simulated world: models, data, snapshots and an independent
NumPy reference of the model equations."""
import numpy as np

from . import seams
from .core import Violation

SCHEMES_MF = [
    "mean-field-ca",
    "mean-field-gradient",
    "mean-field-collapsed-gradient",
    "mean-field-ca-gradient",
    "mean-field-ca-collapsed-gradient",
    "mean-field",
]
SCHEMES = SCHEMES_MF + ["structured"]
KINDS = ["GPCM", "CGPCM", "RGPCM"]
N_DATA = 8
N_PRED = 5


# ----------------------------------------------------------------------- configurations


LANES = [
    ("GPCM", "ca"), ("CGPCM", "ca"), ("RGPCM", "ca"),
    ("GPCM", "structured"), ("CGPCM", "structured"),
    ("GPCM", "grad"), ("CGPCM", "grad"), ("RGPCM", None),
]


def lane(g, families=("ca", "structured", "grad")):
    """Model class and family of schemes of this run."""
    kind, fam = LANES[g.lane]
    if fam is None:
        fam = families[g.sub % len(families)]
    if fam not in families:
        fam = families[g.sub % len(families)]
    return kind, fam


def scheme_of(g, fam):
    if fam == "grad":
        return g.pick(SCHEMES_MF[1:])
    return {"ca": "mean-field-ca", "structured": "structured"}[fam]


def gen_cfg(g, kinds=KINDS, schemes=SCHEMES_MF, flags=True):
    cfg = {
        "kind": g.pick(kinds),
        "scheme": g.pick(schemes),
        "window": round(g.uniform(0.7, 2.0), 3),
        "scale": round(g.uniform(0.35, 0.8), 3),
        "noise": round(10 ** g.uniform(-2, -0.3), 4),
        "n_u": 5,
        "n_z": 5,
        "T": round(g.uniform(2.5, 5.0), 2),
    }
    if flags and g.chance(0.3):
        for f in ("fix_noise", "fix_window", "fix_scale"):
            if g.chance(0.4):
                cfg[f] = True
    return cfg


def build(cfg):
    import gpcm

    t = np.linspace(0, cfg["T"], N_DATA)
    kw = {k: cfg[k] for k in ("fix_noise", "fix_window", "fix_scale") if k in cfg}
    for k in ("extend_t_z", "t_u", "alpha", "gamma", "omega", "alpha_t", "lam"):
        if k in cfg:
            kw[k] = cfg[k]
    return getattr(gpcm, cfg["kind"])(
        scheme=cfg["scheme"],
        window=cfg["window"],
        scale=cfg["scale"],
        noise=cfg["noise"],
        n_u=cfg["n_u"],
        n_z=cfg["n_z"],
        t=t,
        **kw,
    )


def data(cfg, seed, n=N_DATA, lo=0.0, hi=None):
    r = np.random.RandomState(seed % (2**32))
    hi = cfg["T"] if hi is None else hi
    t = np.sort(r.uniform(lo, hi, n)) if seed % 2 else np.linspace(lo, hi, n)
    f = sum(
        r.randn() * np.sin(r.uniform(1, 2 * np.pi) * t + r.uniform(0, 6))
        for _ in range(3)
    )
    y = f / 1.5 + 0.1 * r.randn(n)
    return t, y


def grid(cfg, n=N_PRED, extra=0.3):
    return np.linspace(-extra, cfg["T"] + extra, n)


# --------------------------------------------------------------------------- snapshots


def num(x):
    """Anything numerical to a plain NumPy array."""
    import lab.jax as B

    return np.asarray(B.to_numpy(B.dense(x)), dtype=float)


def snap(model):
    return {name: num(model.vs[name]).copy() for name in model.vs.names}


def same(a, b, rtol=0.0, atol=0.0):
    a, b = np.asarray(a, float), np.asarray(b, float)
    if a.shape != b.shape:
        return False
    if rtol == 0 and atol == 0:
        return bool(np.array_equal(a, b, equal_nan=True))
    scale = np.max(np.abs(b[np.isfinite(b)])) if np.isfinite(b).any() else 1.0
    return bool(
        np.allclose(a, b, rtol=rtol, atol=atol + rtol * scale, equal_nan=True)
    )


def diff_snap(a, b, rtol=0.0, atol=0.0, names=None):
    """Names at which two snapshots differ."""
    ns = names if names is not None else sorted(set(a) | set(b))
    return [n for n in ns if n not in a or n not in b or not same(a[n], b[n], rtol, atol)]


def log_snap(run, tag, s):
    for n in sorted(s):
        run.log_array(f"{tag}:{n}", s[n])


def qs(model):
    """Ensure that the approximate posteriors of a mean-field model exist."""
    a = model().approximation
    return a.q_u, a.q_z


HYPERS = {
    "GPCM": ["noise", "alpha", "alpha_t", "gamma", "omega", "t_u", "t_z"],
    "CGPCM": ["noise", "alpha", "alpha_t", "gamma", "omega", "t_u", "t_z"],
    "RGPCM": ["noise", "alpha", "alpha_t", "lambda", "gamma_factor", "t_u"],
}


def hyper_names(s):
    return [n for n in s if not n.startswith("q_")]


# --------------------------------------------------------------------------- reference


class Terms:
    pass


def terms(inst, t, y=None):
    """The quantities of the model at given inputs, from the model's public integrals."""
    import lab.jax as B
    import jax.numpy as jnp

    tt = jnp.array(t)
    r = Terms()
    r.t, r.y = np.asarray(t), y
    r.K_u, r.K_z = num(inst.compute_K_u()), num(inst.compute_K_z())
    n, nu, nz = len(t), r.K_u.shape[0], r.K_z.shape[0]
    r.n, r.nu, r.nz = n, nu, nz
    r.i_hx = np.broadcast_to(num(inst.compute_i_hx(tt, tt)), (n,))
    r.I_ux = np.broadcast_to(num(inst.compute_I_ux()), (n, nu, nu))
    r.I_hz = np.broadcast_to(num(inst.compute_I_hz(tt)), (n, nz, nz))
    r.I_uz = np.broadcast_to(num(inst.compute_I_uz(tt)), (n, nu, nz))
    Ku_i, Kz_i = np.linalg.inv(r.K_u), np.linalg.inv(r.K_z)
    r.A = r.I_ux - np.einsum("nij,jk,nlk->nil", r.I_uz, Kz_i, r.I_uz)
    r.B = r.I_hz - np.einsum("nji,jk,nkl->nil", r.I_uz, Ku_i, r.I_uz)
    r.c = (
        r.i_hx
        - np.einsum("ij,nij->n", Ku_i, r.I_ux)
        - np.einsum("ij,nij->n", Kz_i, r.I_hz)
        + np.einsum("ij,njk,kl,nil->n", Ku_i, r.I_uz, Kz_i, r.I_uz)
    )
    r.noise = float(num(inst.noise))
    return r


class G:
    """A Gaussian with its moments."""

    def __init__(self, lam, prec):
        self.lam = np.asarray(lam, float).reshape(-1)
        self.prec = np.asarray(prec, float)
        self.prec = (self.prec + self.prec.T) / 2
        self.L = np.linalg.cholesky(self.prec)
        self.var = np.linalg.inv(self.prec)
        self.var = (self.var + self.var.T) / 2
        self.mean = np.linalg.solve(self.prec, self.lam)
        self.m2 = self.var + np.outer(self.mean, self.mean)

    def kl(self, p):
        d = self.mean - p.mean
        return 0.5 * (
            np.trace(p.prec @ self.var)
            + d @ p.prec @ d
            - len(d)
            + np.linalg.slogdet(self.prec)[1]
            - np.linalg.slogdet(p.prec)[1]
        )


def stored_q(s, which, i=0):
    return G(s[f"q_{which}[{i}].lam"], s[f"q_{which}[{i}].prec"])


def has_q(s, i=0):
    return all(f"q_{w}[{i}].{p}" in s for w in "uz" for p in ("lam", "prec"))


def opt_u(r, z_mean, z_m2, prior=None):
    """Optimal q(u) given moments of z."""
    lam = np.einsum("n,nij,j->i", r.y, r.I_uz, z_mean) / r.noise
    prec = (r.A.sum(0) + np.einsum("nij,jk,nlk->il", r.I_uz, z_m2, r.I_uz)) / r.noise
    if prior is None:
        return G(lam, r.K_u + prec)
    return G(prior.lam + lam, prior.prec + prec)


def opt_z(r, u_mean, u_m2, prior=None):
    lam = np.einsum("n,nji,j->i", r.y, r.I_uz, u_mean) / r.noise
    prec = (r.B.sum(0) + np.einsum("nji,jk,nkl->il", r.I_uz, u_m2, r.I_uz)) / r.noise
    if prior is None:
        return G(lam, r.K_z + prec)
    return G(prior.lam + lam, prior.prec + prec)


def elbo_terms(r, qu, qz, pu=None, pz=None):
    """Mean-field ELBO and the sum of the magnitudes of its parts (for tolerances)."""
    pu = G(np.zeros(r.nu), r.K_u) if pu is None else pu
    pz = G(np.zeros(r.nz), r.K_z) if pz is None else pz
    y = r.y
    parts = [
        np.sum(y**2),
        np.sum(r.A.sum(0) * qu.m2),
        np.sum(r.B.sum(0) * qz.m2),
        np.einsum("nij,jk,nlk,il->", r.I_uz, qz.m2, r.I_uz, qu.m2),
        np.sum(r.c),
        -2 * qu.mean @ np.einsum("n,nij->ij", y, r.I_uz) @ qz.mean,
    ]
    kls = [qu.kl(pu), qz.kl(pz)]
    e = -0.5 * r.n * np.log(2 * np.pi * r.noise) - 0.5 / r.noise * sum(parts) - sum(kls)
    mag = (
        abs(0.5 * r.n * np.log(2 * np.pi * r.noise))
        + 0.5 / r.noise * sum(map(abs, parts))
        + sum(map(abs, kls))
        + 1
    )
    return e, mag


def log_Z_u(r, u):
    """log of the evidence of y given u, with the conditional of the model."""
    q = opt_z(r, u, np.outer(u, u))
    quad = np.sum(r.y**2) + u @ r.A.sum(0) @ u + r.c.sum()
    return 0.5 * (
        -r.n * np.log(2 * np.pi * r.noise)
        - quad / r.noise
        + np.linalg.slogdet(r.K_z)[1]
        - np.linalg.slogdet(q.prec)[1]
        + q.lam @ q.mean
    )


def moments_f(r, u_mean, u_m2, z_mean, z_m2):
    """Mean and second moment of the function."""
    m1 = np.einsum("i,nij,j->n", u_mean, r.I_uz, z_mean)
    m2 = (
        np.einsum("nij,ij->n", r.A, u_m2)
        + np.einsum("nij,ij->n", r.B, z_m2)
        + r.c
        + np.einsum("nij,jk,nlk,il->n", r.I_uz, z_m2, r.I_uz, u_m2)
    )
    return m1, m2


def predict_ref(inst, t, s=None, cond=None, i=0, kind="mf"):
    """Reference predictive mean and variance. `cond` is the (t, y) conditioned on."""
    r = terms(inst, t)
    if kind == "mf":
        qu, qz = stored_q(s, "u", i), stored_q(s, "z", i)
        m1, m2 = moments_f(r, qu.mean, qu.m2, qz.mean, qz.m2)
    else:
        rc = terms(inst, cond[0], np.asarray(cond[1]))
        us = s[f"q_u[{i}].samples"].T
        a, b = [], []
        for u in us:
            uu = np.outer(u, u)
            q = opt_z(rc, u, uu)
            x1, x2 = moments_f(r, u, uu, q.mean, q.m2)
            a.append(x1)
            b.append(x2)
        m1, m2 = np.mean(a, 0), np.mean(b, 0)
    return m1, m2 - m1**2 + r.noise, r.noise + np.abs(m2)


def kernel_ref(inst, tk, us):
    """Kernel at lags tk for every column of us (whitened inducing variables)."""
    import jax.numpy as jnp

    tk = np.asarray(tk, float)
    part1 = num(inst.compute_i_hx(jnp.array(tk)[:, None], jnp.zeros((1, 1))))
    part1 = np.broadcast_to(part1, (len(tk), 1))[:, 0]
    I = num(inst.compute_I_ux(jnp.array(tk), jnp.zeros(1)))
    K_u = num(inst.compute_K_u())
    I = np.broadcast_to(I, (len(tk), 1) + K_u.shape)[:, 0]
    Ki = np.linalg.inv(K_u)
    base = part1 - np.einsum("ij,nij->n", Ki, I)
    return base[None, :] + np.einsum("is,nij,js->sn", us, I, us)


# ------------------------------------------------------------------------ fault helpers


def gen_interrupt(g, files=("approx.py", "model.py", "normal.py"), n_max=2000):
    """A seeded place at which to interrupt an operation."""
    if g.chance(0.6):
        return {"mode": "count", "n": g.logint(1, n_max)}
    ss = seams.sites(files)
    f, name, lines = g.pick(ss)
    return {"mode": "site", "name": name, "occ": g.logint(1, 4 * lines + 4)}


EXCS = {
    "interrupt": KeyboardInterrupt,
    "memory": MemoryError,
}


def interrupted(run, spec, f, exc="interrupt"):
    """Run f with a fault. Returns (fired, outcome) with outcome ("ok", value) or
    ("exc", e)."""
    if spec is None:
        return False, ("ok", f())
    if spec["mode"] == "output":
        seams.sink.arm(spec["n"], OSError(5, "Input/output error (injected)"))
        try:
            r = ("ok", f())
        except OSError as e:
            r = ("exc", e)
            if "injected" not in str(e):
                raise
        finally:
            fired = seams.sink.disarm()
        if fired:
            run.fault("output_error")
        return fired, r
    it = seams.Interrupter(spec, EXCS[exc])
    with it:
        try:
            r = ("ok", f())
        except EXCS[exc] as e:
            if "injected" not in str(e):
                raise
            r = ("exc", e)
    if it.fired:
        run.fault(exc)
        run.log("at", it.fired[0], it.fired[1], it.count)
    return bool(it.fired), r


def unindent():
    """An interrupted section of output leaves its indentation behind; start afresh."""
    import wbml.out as out

    out.indent_level = 0


def guard(kind, f):
    """Run an operation of the code under test which must succeed."""
    try:
        return f()
    except Violation:
        raise
    except Exception as e:
        raise Violation(kind, f"{type(e).__name__}: {str(e)[:300]}")
