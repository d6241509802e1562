"""C04: elliptical slice sampling leaves its target invariant."""
import numpy as np
from scipy import stats

from ..core import Violation

META = {
    "runs": {"quick": 400, "thorough": 14000},
    "deadline": {"quick": 90, "thorough": 780},
    "level": "statistical",
    "rule": "one run = one sampler with a seeded target and random stream; either every proposal "
    "of up to thousands of steps is checked against the ellipse, bracket and slice rules, or "
    "hundreds of exact posterior draws are pushed through some steps and compared with the exact "
    "posterior, or chains from bad starts are compared with it; non-trivial if a statistic or a "
    "proposal was judged",
    "components": {
        "real": "gpcm.sample.ESS, NumPy's global random state (seeded by the simulator)",
        "stub": "likelihood and prior callbacks are the simulator's",
    },
    "assumptions": [
        "tests of distributions alarm beyond 6 to 7 standard errors (probability below 1e-9 each)"
    ],
}

D_MAX = 3.6  # sqrt(n) * Kolmogorov distance: probability 2 exp(-2 D^2) = 1e-11
Z_MAX = 6.5


def gen(g, tier):
    mode = g.pick(["geometry", "geometry", "invariance", "invariance", "invariance", "slice", "converge"])
    big = 3 if tier == "thorough" else 1
    plan = {"mode": mode, "dim": g.randrange(2, 6), "seed2": g.randrange(2**31), "move": g.chance(0.5),
            "shape": g.pick(["vec", "col"]), "trace": g.chance(0.1)}
    if mode == "geometry":
        plan.update(n=2500 * big, width=round(10 ** g.uniform(-1.5, 0.7), 3),
                    kind=g.pick(["gauss", "trunc", "steps", "ring"]))
    elif mode == "slice":
        plan.update(n=24000 * big)
    else:
        plan.update(
            kind=g.pick(["gauss", "trunc", "bimodal", "weights", "student"]),
            n=g.pick([600, 1000]) * big, k=g.pick([1, 2, 4, 8]), par=round(g.uniform(0.2, 1.5), 3),
            loc=round(g.uniform(-1.5, 1.5), 3), dim=g.randrange(1, 4))
        if mode == "converge":
            plan.update(kind=g.pick(["gauss", "bimodal1", "weights"]), n=250 * big, k=60,
                        par=round(g.uniform(0.6, 1.5), 3), loc=round(g.uniform(-1, 1), 3))
    return plan


def execute(run, plan):
    {"geometry": geometry, "slice": slices, "invariance": invariance, "converge": invariance}[
        plan["mode"]](run, plan)


def ks(run, u, what):
    """Kolmogorov test of uniformity."""
    u = np.sort(np.asarray(u))
    n = len(u)
    if n < 50:
        return
    i = np.arange(n)
    d = max(np.max((i + 1) / n - u), np.max(u - i / n)) * np.sqrt(n)
    run.log("ks", what, n, f"{d:.6f}")
    run.check(d < D_MAX, "not_the_target", lambda: f"{what}: sqrt(n) D = {d:.2f}, n = {n}")


def prior_chol(r, dim):
    A = r.randn(dim, dim) / np.sqrt(dim)
    return np.linalg.cholesky(A @ A.T + 0.3 * np.eye(dim))


# --------------------------------------------------------------------------- mechanism


def geometry(run, plan):
    from gpcm.sample import ESS

    dim, r = plan["dim"], np.random.RandomState(plan["seed2"])
    L = prior_chol(r, dim)
    target = L @ r.randn(dim)
    w = plan["width"]
    events = []
    col = plan["shape"] == "col"

    def log_lik_value(x):
        if plan["kind"] == "gauss":
            return -0.5 * np.sum((x - target) ** 2) / w**2
        if plan["kind"] == "trunc":
            return 0.0 if x @ target > -w * abs(target @ target) else -np.inf
        if plan["kind"] == "steps":
            return -float(np.floor(np.abs(x[0]) / w))
        return -0.5 * (np.sum(x**2) - dim) ** 2 / w**2

    def log_lik(x):
        v = log_lik_value(np.reshape(x, -1))
        events.append(("ll", np.reshape(np.array(x), -1).copy(), v))
        return v

    def prior():
        y = L @ r.randn(dim)
        events.append(("prior", y.copy(), None))
        return y[:, None] if col else y

    x0 = L @ r.randn(dim)
    for _ in range(10000):
        if np.isfinite(log_lik_value(x0)):
            break
        x0 = L @ r.randn(dim)
    ess = ESS(log_lik, prior, x_init=x0[:, None] if col else x0)
    first, inner, deeper = [], [], []
    n = plan["n"]
    for step in range(n):
        if plan["move"] and step % 50 == 49:
            ess.move((L @ r.randn(dim)).reshape(np.shape(ess.x)))
            if not np.isfinite(ess.log_lik_x):
                ess.move(x0.reshape(np.shape(ess.x)))
        x = np.reshape(np.array(ess.x), -1).copy()
        ll_x = log_lik_value(x)
        run.check(ess.log_lik_x == ll_x, "stored_likelihood_differs", lambda: f"{ess.log_lik_x} != {ll_x}")
        del events[:]
        out = ess.sample(1, trace=plan["trace"] and step % 20 == 0)
        run.check(len(out) == 1, "wrong_number_of_samples")
        x1 = np.reshape(np.array(out[0]), -1)
        # Group the proposals by ellipse. An attempt that runs out of proposals starts a new one.
        groups = []
        for kind, v, val in events:
            if kind == "prior":
                groups.append((v, []))
            else:
                if not groups:
                    raise Violation("no_fresh_prior_draw", f"step {step}")
                if groups[-1][1] and np.array_equal(groups[-1][1][-1][0], v):
                    continue
                groups[-1][1].append((v, val))
        for gi, (y, props) in enumerate(groups):
            last_group = gi == len(groups) - 1
            if not last_group:
                run.probe("gave_up_on_ellipse")
            rejected = []
            basis = np.stack([x, y], axis=1)
            for j, (p, val) in enumerate(props):
                ab = np.linalg.lstsq(basis, p, rcond=None)[0]
                res = np.max(np.abs(basis @ ab - p)) / (1 + np.max(np.abs(p)))
                cond = np.linalg.cond(basis)
                run.check(res < 1e-9, "off_the_ellipse", lambda: f"residual {res}")
                if cond > 1e4:
                    continue
                run.check(abs(np.sum(ab**2) - 1) < 1e-6, "off_the_ellipse", lambda: f"coefficients {ab}")
                th = np.arctan2(ab[1], ab[0])  # In (-pi, pi].
                # The arc around the current state which the rejected proposals leave.
                hi = min([t for t in rejected if t > 0] + [t + 2 * np.pi for t in rejected if t < 0] + [np.inf])
                lo = max([t for t in rejected if t < 0] + [t - 2 * np.pi for t in rejected if t > 0] + [-np.inf])
                if rejected:
                    ok = any(lo - 1e-6 <= t <= hi + 1e-6 for t in (th, th - 2 * np.pi, th + 2 * np.pi))
                    run.check(ok, "outside_bracket", lambda: f"angle {th} not in [{lo}, {hi}]")
                acc = last_group and j == len(props) - 1
                if len(rejected) == 0:
                    first.append(th / (2 * np.pi) + 0.5)
                # With rejections on both sides of the state the bracket is known exactly.
                sides = {np.sign(t) for t in rejected}
                if len(sides) == 2 and hi - lo < np.pi:
                    inner.append((th - lo) / (hi - lo))
                    if len(rejected) > 3:
                        deeper.append((th - lo) / (hi - lo))
                if acc:
                    run.check(val > -np.inf, "accepted_impossible", f"step {step}")
                    run.check(all(val > v for _, v in props[:-1]),
                              "slice_not_monotone", lambda: f"accepted {val}, rejected {[z for _, z in props[:-1]]}")
                    run.check(np.array_equal(p, x1), "accepted_is_not_last_proposal")
                else:
                    run.check(val < ll_x, "rejected_better", lambda: f"{val} >= {ll_x}")
                    rejected.append(th)
        run.check(np.array_equal(np.reshape(np.array(ess.x), -1), x1), "state_is_not_sample")
        if step % 500 == 0:
            run.log_array("x", x1)
    ks(run, first, "first angle")
    ks(run, inner, "position in bracket")
    ks(run, deeper, "position in small bracket")
    run.probe("proposals", len(first) + len(inner))


def slices(run, plan):
    """A proposal which is less likely by d is accepted with probability exp(-d)."""
    from gpcm.sample import ESS

    r = np.random.RandomState(plan["seed2"])
    state = {"d": 0.0, "n": 0, "base": 0.0}
    values = {}

    def log_lik(x):
        k = np.array(x).tobytes()
        if k not in values:
            state["n"] += 1
            values[k] = state["base"] - state["d"] if state["n"] == 1 else state["base"] + 1e-3
        return values[k]

    ess = ESS(log_lik, lambda: r.randn(2), x_init=np.ones(2))
    ds = [0.05, 0.3, 1.0, 2.5]
    hits = {d: [] for d in ds}
    for i in range(plan["n"]):
        values.clear()
        state.update(n=2, base=float(r.uniform(-50, 50)))
        x = np.array(ess.x)
        values[x.tobytes()] = state["base"]
        ess.move(x)
        state.update(n=0, d=ds[i % len(ds)])
        ess.sample(1)
        hits[ds[i % len(ds)]].append(state["n"] == 1)
    # Scores for a change of scale and for a shift of the slice height.
    for name, w in [("scale", lambda d: d / (1 - np.exp(-d))), ("shift", lambda d: 1 / (1 - np.exp(-d)))]:
        num = sum(w(d) * (np.sum(hits[d]) - len(hits[d]) * np.exp(-d)) for d in ds)
        var = sum(w(d) ** 2 * len(hits[d]) * np.exp(-d) * (1 - np.exp(-d)) for d in ds)
        z = num / np.sqrt(var)
        run.check(abs(z) < Z_MAX, "wrong_slice_height", lambda: f"{name}: z = {z:.1f}")
    for d in ds:
        p, n = np.exp(-d), len(hits[d])
        z = (np.mean(hits[d]) - p) / np.sqrt(p * (1 - p) / n)
        run.log("slice", d, n, int(np.sum(hits[d])))
        run.check(abs(z) < Z_MAX, "wrong_slice_height", lambda: f"difference {d}: accepted {np.mean(hits[d]):.3f}, should be {p:.3f}, z = {z:.1f}")


# ------------------------------------------------------------------------- invariance


class Target:
    """Whitened: x = L v with v standard normal under the prior; the likelihood depends on the
    first coordinate of v only unless Gaussian."""

    def __init__(self, plan, r):
        self.kind, self.par, self.loc = plan["kind"], plan["par"], plan["loc"]
        self.dim = plan["dim"]
        self.L = prior_chol(r, self.dim)
        self.grid = None
        if self.kind not in ("gauss",):
            self.table()

    def log_lik1(self, v):
        k, s, m = self.kind, self.par, self.loc
        with np.errstate(divide="ignore"):
            if k == "trunc":
                return np.where(v > m, 0.0, -np.inf)
            if k == "bimodal":
                return np.logaddexp(-0.5 * ((v - 1.5) / s) ** 2, -0.5 * ((v + 1.5) / s) ** 2)
            if k == "bimodal1":
                return np.logaddexp(-0.5 * (v - 1) ** 2, -0.5 * (v + 1) ** 2)
            if k == "weights":
                return s * 2 * (v > m)
            if k == "student":
                return -2.0 * np.log1p(((v - m) / s) ** 2 / 3)

    def table(self):
        self.grid = np.linspace(-9, 9, 180001)
        p = np.exp(self.log_lik1(self.grid) - 0.5 * self.grid**2)
        c = np.concatenate([[0], np.cumsum((p[1:] + p[:-1]) / 2)])
        self.c = c / c[-1]

    def log_lik(self, x):
        v = np.linalg.solve(self.L, x)
        if self.kind == "gauss":
            return -0.5 * np.sum((v - self.loc) ** 2) / self.par**2
        return float(self.log_lik1(v[0]))

    def post(self):
        var = 1 / (1 + 1 / self.par**2)
        return var * self.loc / self.par**2, var

    def exact(self, r):
        v = r.randn(self.dim)
        if self.kind == "gauss":
            m, var = self.post()
            return self.L @ (m + np.sqrt(var) * v)
        v[0] = np.interp(r.uniform(), self.c, self.grid)
        if not np.isfinite(self.log_lik1(v[0])):
            v[0] = self.grid[np.searchsorted(self.grid, self.loc) + 1]
        return self.L @ v

    def bad(self, r):
        """A start far in the tail, of positive likelihood."""
        v = r.choice([-1, 1], size=self.dim) * 4.0
        return self.L @ v

    def cdf(self, xs):
        vs = np.linalg.solve(self.L, xs.T).T
        if self.kind == "gauss":
            m, var = self.post()
            return stats.norm.cdf((vs - m) / np.sqrt(var))
        u = stats.norm.cdf(vs)
        u[:, 0] = np.interp(vs[:, 0], self.grid, self.c)
        return u


def invariance(run, plan):
    from gpcm.sample import ESS

    r = np.random.RandomState(plan["seed2"])
    T = Target(plan, r)
    col = plan["shape"] == "col"
    sh = (T.dim, 1) if col else (T.dim,)
    log_lik = lambda x: T.log_lik(np.reshape(np.array(x), -1))  # noqa: E731
    prior = lambda: (T.L @ r.randn(T.dim)).reshape(sh)  # noqa: E731
    start = T.bad if plan["mode"] == "converge" else T.exact
    ess = ESS(log_lik, prior, x_init=T.exact(r).reshape(sh))
    xs = []
    starts = []
    for i in range(plan["n"]):
        x0 = start(r).reshape(sh)
        starts.append(x0.reshape(-1))
        if plan["move"]:
            ess.move(x0)
        else:
            ess = ESS(log_lik, prior, x_init=x0)
        out = ess.sample(plan["k"], trace=plan["trace"] and i % 50 == 0)
        run.check(len(out) == plan["k"], "wrong_number_of_samples")
        run.check(np.shape(out[-1]) == sh, "wrong_shape", lambda: str(np.shape(out[-1])))
        xs.append(np.reshape(np.array(out[-1]), -1))
    xs, starts = np.stack(xs), np.stack(starts)
    run.log_array("xs", xs)
    if plan["mode"] != "converge":
        run.check(np.mean(np.all(xs == starts, axis=1)) < 0.05, "does_not_move")
    U = T.cdf(xs)
    for d in range(T.dim):
        ks(run, U[:, d], f"{plan['mode']} {plan['kind']} coordinate {d}")
    # Second moments, jointly: sum of squared normal scores.
    z = stats.norm.ppf(np.clip(U, 1e-12, 1 - 1e-12))
    ks(run, stats.chi2.cdf(np.sum(z**2, axis=1), T.dim), "radius")
    if T.dim > 1:
        rho = np.mean(z[:, 0] * z[:, 1]) * np.sqrt(len(z))
        run.check(abs(rho) < Z_MAX + 1, "not_the_target", lambda: f"correlation z = {rho:.1f}")


def simplify(plan):
    if plan["n"] > 500:
        yield dict(plan, n=plan["n"] // 2)
    if plan.get("trace"):
        yield dict(plan, trace=False)
    if plan.get("move"):
        yield dict(plan, move=False)
