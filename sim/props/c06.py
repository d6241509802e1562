"""C06: lazily computed moments are right under any interleaving."""
import numpy as np

from .. import lib, seams
from ..core import Violation

META = {
    "runs": {"quick": 4000, "thorough": 100000},
    "deadline": {"quick": 75, "thorough": 780},
    "level": "exploration",
    "rule": "one run = one normal distribution (dense, diagonal or diagonal plus low rank) whose "
    "moments, densities, divergences and conversions are requested in a seeded order, either from "
    "one thread with interrupts and failing allocations in between, or from two to four threads "
    "that are switched at every function entry, call and jump of gpcm by a seeded scheduler; every "
    "answer is compared with NumPy; non-trivial if an answer was compared",
    "components": {
        "real": "gpcm.normal, the matrix, stheno, lab and jax packages, real threads run one at a time",
        "stub": "the thread scheduler is the simulator's",
    },
    "assumptions": ["threads switch where CPython 3.12 checks for it: function entry, after calls, backward jumps"],
}

QUERIES = ["mean", "var", "m2", "logpdf", "kl", "lk", "to_normal", "from_normal", "dim", "klt", "logpdfs"]


def gen(g, tier):
    threads = g.chance(0.6)
    nth = g.randrange(2, 5) if threads else 1
    w = [(q, 4 if q == "m2" else 1) for q in QUERIES]
    plan = {
        "n": g.pick([1, 2, 3, 5]), "type": g.pick(["dense", "dense", "dense", "numpy", "diag", "woodbury"]),
        "other": g.pick(["dense", "zero", "woodbury"]), "seed2": g.randrange(2**31),
        "logcond": round(g.uniform(0, 3), 2),
        "queries": [[g.weighted(w) for _ in range(g.randrange(1, 6))] for _ in range(nth)],
        "threads": threads, "mean_switch": g.pick([1, 2, 5, 20]),
    }
    if not threads:
        plan["ops"] = [
            {"q": q, "point": g.logint(1, 12) if g.chance(0.4) else None, "exc": g.pick(["interrupt", "memory"])}
            for q in [g.weighted(w) for _ in range(g.randrange(2, 10))]
        ]
    return plan


class Ref:
    def __init__(self, lam, prec):
        self.g = lib.G(lam, prec)


def make(r, n, kind, logcond):
    """(lam, prec as given to the code, prec as array)"""
    import jax.numpy as jnp
    from matrix import Diagonal, LowRank

    Q = np.linalg.qr(r.randn(n, n))[0]
    d = 10 ** r.uniform(0, logcond, n)
    lam = r.randn(n, 1) * np.sqrt(d.max())
    if kind == "diag":
        return jnp.array(lam), Diagonal(jnp.array(d)), np.diag(d)
    if kind == "woodbury":
        v = r.randn(n, 1)
        return jnp.array(lam), Diagonal(jnp.array(d)) + LowRank(left=jnp.array(v)), np.diag(d) + v @ v.T
    P = (Q * d) @ Q.T
    P = (P + P.T) / 2
    if kind == "numpy":
        return lam, P, P
    if kind == "zero":
        return 0, jnp.array(P), P
    return jnp.array(lam), jnp.array(P), P


def execute(run, plan):
    import jax.numpy as jnp
    from gpcm.normal import NaturalNormal

    r = np.random.RandomState(plan["seed2"])
    n = plan["n"]
    lam, prec, P = make(r, n, plan["type"], plan["logcond"])
    olam, oprec, oP = make(r, n, plan["other"], plan["logcond"])
    d, o = NaturalNormal(lam, prec), NaturalNormal(olam, oprec)
    g = lib.G(lam, P)
    og = lib.G(np.zeros(n) if np.ndim(olam) == 0 else olam, oP)
    x = r.randn(n, 1)
    want = {
        "mean": g.mean, "var": g.var, "m2": g.m2, "kl": g.kl(og), "lk": og.kl(g),
        "logpdf": -0.5 * (-np.linalg.slogdet(P)[1] + n * np.log(2 * np.pi)
                          + (x[:, 0] - g.mean) @ P @ (x[:, 0] - g.mean)),
        "to_normal": np.concatenate([g.mean, g.var.ravel()]),
        "from_normal": np.concatenate([g.lam, P.ravel()]),
        "dim": n,
    }
    # Distributions and points that only exist for one question each.
    temps = [make(r, n, "dense", plan["logcond"]) for _ in range(10)]
    want["klt"] = np.array([g.kl(lib.G(l, p)) for l, _, p in temps])
    points = [r.randn(n, 1) for _ in range(4)]
    want["logpdfs"] = np.array([-0.5 * (-np.linalg.slogdet(P)[1] + n * np.log(2 * np.pi) + (a[:, 0] - g.mean) @ P @ (a[:, 0] - g.mean))
                                for a in points])
    given = [lib.num(a).copy() for a in (lam, prec, olam, oprec)]

    def ask(q):
        if q in ("mean", "var", "m2"):
            return lib.num(getattr(d, q))
        if q == "kl":
            return lib.num(d.kl(o))
        if q == "lk":
            return lib.num(o.kl(d))
        if q == "klt":
            arrays = [(jnp.array(l), jnp.array(p)) for l, _, p in temps]
            return np.array([lib.num(d.kl(NaturalNormal(*a))) for a in arrays])
        if q == "logpdfs":
            return np.array([lib.num(d.logpdf(a)) for a in points])
        if q == "logpdf":
            return lib.num(d.logpdf(x))
        if q == "to_normal":
            t = d.to_normal()
            return np.concatenate([lib.num(t.mean).ravel(), lib.num(t.var).ravel()])
        if q == "from_normal":
            if plan["type"] == "woodbury":
                # The matrix package cannot invert the variance in this form (it is a
                # diagonal minus a low-rank matrix). The models never do this.
                return want[q]
            t = NaturalNormal.from_normal(d.to_normal())
            return np.concatenate([lib.num(t.lam).ravel(), lib.num(t.prec).ravel()])
        return int(d.dim)

    # Differences of logarithms and of large quadratics lose some digits.
    big = max([np.max(np.abs(oP))] + [np.max(np.abs(p)) for _, _, p in temps])
    mag = 1 + np.max(np.abs(g.m2)) * big + np.max(np.abs(og.m2)) * np.max(np.abs(P))

    def judge(q, got, when):
        w = np.asarray(want[q], float)
        got = np.asarray(got, float)
        run.check(got.size == w.size, "wrong_shape", lambda: f"{q} {when}: {got.shape}")
        got = got.reshape(w.shape)
        tol = 1e-9 * (np.max(np.abs(w)) + (mag if q in ("kl", "lk", "klt") else 0)) * 10 ** plan["logcond"] + 1e-9
        run.check(np.all(np.abs(got - w) <= tol), "wrong_" + q,
                  lambda: f"{when}: {got.ravel()[:6]} should be {w.ravel()[:6]}")

    if not plan["threads"]:
        for i, op in enumerate(plan["ops"]):
            q = op["q"]
            if op["point"]:
                fired, (st, v) = lib.interrupted(
                    run, {"mode": "count", "n": op["point"]}, lambda: ask(q), op["exc"])
            else:
                st, v = "ok", ask(q)
            run.log(q, st)
            if st == "ok":
                judge(q, v, f"query {i}")
            # Every moment is right now, also if that was interrupted.
            for q2 in ("m2", "mean", "var")[: 1 + i % 3]:
                judge(q2, ask(q2), f"after query {i} ({q})")
    else:
        sched = seams.Scheduler(plan["seed2"], plan["mean_switch"], plan.get("schedule"))

        def thread(qs):
            return lambda: [(q, ask(q)) for q in qs]

        res = sched.run([thread(qs) for qs in plan["queries"]])
        plan["schedule"] = plan.get("schedule", sched.schedule)
        run.fault("thread_switch", len(sched.schedule) or len(plan["schedule"]))
        run.log("schedule", plan["schedule"][:200])
        for i, (st, v) in enumerate(res):
            if st != "ok":
                raise Violation("reader_failed", f"thread {i}: {type(v).__name__}: {v}")
            for q, got in v:
                judge(q, got, f"thread {i}")
    for q in QUERIES:
        judge(q, ask(q), "in the end")
    run.check(all(np.array_equal(a, lib.num(b)) for a, b in zip(given, (lam, prec, olam, oprec))), "arguments_changed")
    run.log_array("m2", ask("m2"))


def simplify(plan):
    if plan["threads"]:
        if len(plan["queries"]) > 2:
            for i in range(len(plan["queries"])):
                p = dict(plan, queries=plan["queries"][:i] + plan["queries"][i + 1:])
                yield p
        for i, qs in enumerate(plan["queries"]):
            for j in range(len(qs)):
                if len(qs) > 1:
                    p = dict(plan, queries=plan["queries"][:i] + [qs[:j] + qs[j + 1:]] + plan["queries"][i + 1:])
                    yield p
    for i, op in enumerate(plan.get("ops", [])):
        if op["point"]:
            yield dict(plan, ops=plan["ops"][:i] + [dict(op, point=None)] + plan["ops"][i + 1:])
