"""C08: mean-field training never lowers the ELBO."""
import copy

import numpy as np

from .. import lib
from ..core import Violation

META = {
    "runs": {"quick": 320, "thorough": 12000},
    "deadline": {"quick": 80, "thorough": 780},
    "level": "exploration",
    "rule": "one run = one mean-field model taken through a seeded history of fits with different "
    "numbers of iterations on different data, interrupted fits, perturbed posteriors, further "
    "batches trained on a conditioned model; before and after every completed fit the ELBO is "
    "computed from the stored variables by a NumPy reference; non-trivial if two ELBOs were compared",
    "components": {
        "real": "gpcm, probmods, varz, lab, jax, SciPy's optimiser",
        "stub": "clock, output stream, random seeds; jitted functions run op by op in most runs",
    },
    "assumptions": ["rounding: a fit may lower the ELBO by 1e-7 of the sum of the magnitudes of its terms"],
}

RTOL = 1e-7


def gen(g, tier):
    kind, fam = lib.lane(g, ("ca", "grad"))
    scheme = lib.scheme_of(g, fam)
    cfg = lib.gen_cfg(g, [kind], [scheme])
    if g.chance(0.15):
        cfg["noise"] = round(10 ** g.uniform(-3.5, -2), 6)
    ops = []
    grad = fam == "grad"
    for _ in range(g.randrange(1, 4) if grad else g.randrange(2, 7)):
        o = g.weighted([("fit", 5), ("interrupted", 1.5), ("perturb", 1), ("stream", 1.5), ("back", 0.5)])
        op = {"op": o, "d": g.randrange(2)}
        if o in ("fit", "interrupted"):
            op["iters"] = g.pick([1, 2, 3, 8, 30]) if not grad else g.pick([1, 5, 10, 15])
        if o == "interrupted":
            op["spec"] = lib.gen_interrupt(g, n_max=600 if not grad else 6000)
            op["exc"] = g.pick(["interrupt", "memory"])
        if o == "perturb":
            op.update(s=g.randrange(2**31), size=round(10 ** g.uniform(-2, 0.5), 3))
        ops.append(op)
    ops.append({"op": "fit", "d": 0, "iters": g.pick([1, 10]) if not grad else 5})
    converge = not grad and g.chance(0.3)
    return {"cfg": cfg, "data": g.randrange(10**6), "ops": ops, "touch": g.chance(0.7),
            "converge": converge, "jit": converge, "versus_ca": grad and "ca-" in scheme and g.chance(0.6)}


def elbo(m, t, y, i):
    """The ELBO and its scale, from what is stored."""
    s = lib.snap(m)
    if not lib.has_q(s, i):
        return None
    r = lib.terms(m(), t, y)
    pu = pz = None
    if i > 0:
        pu, pz = lib.stored_q(s, "u", i - 1), lib.stored_q(s, "z", i - 1)
    return lib.elbo_terms(r, lib.stored_q(s, "u", i), lib.stored_q(s, "z", i), pu, pz)


def execute(run, plan):
    cfg = plan["cfg"]
    m = lib.build(cfg)
    if plan["touch"]:
        lib.qs(m)
    cur, depth = m, 0
    chain = [m]
    grad = cfg["scheme"] not in ("mean-field-ca",)
    for k, op in enumerate(plan["ops"]):
        lib.unindent()
        t, y = lib.data(cfg, plan["data"] + op["d"] + 11 * depth)
        o = op["op"]
        run.log(o, depth)
        if o == "fit":
            before = elbo(cur, t, y, depth)
            twin = None
            if plan["versus_ca"] and depth == 0 and before is not None:
                twin = lib.build(dict(cfg, scheme="mean-field-ca"))
                lib.qs(twin)
                for n in cur.vs.names:
                    twin.vs.assign(n, cur.vs[n])
            lib.guard("fit_failed", lambda: cur.fit(t, y, iters=op["iters"]))
            after = elbo(cur, t, y, depth)
            run.check(after is not None, "nothing_stored")
            run.check(np.isfinite(after[0]), "elbo_not_finite", str(after[0]))
            run.log("elbo", f"{after[0]:.9g}")
            if before is not None:
                tol = RTOL * (before[1] + after[1])
                run.check(after[0] >= before[0] - tol, "fit_lowered_elbo",
                          lambda: f"op {k}: {before[0]:.9g} -> {after[0]:.9g} (depth {depth}, iters {op['iters']})")
                run.probe("raised" if after[0] > before[0] + tol else "unchanged")
            if cfg["scheme"] != "mean-field-gradient":
                # Whatever ends with coordinate ascent or an analytical update.
                optimal(run, cur, t, y, depth, False)
            if twin is not None:
                twin.fit(t, y, iters=op["iters"])
                ca = elbo(twin, t, y, 0)
                run.check(after[0] >= ca[0] - RTOL * (ca[1] + after[1]), "worse_than_coordinate_ascent",
                          lambda: f"{cfg['scheme']}: {after[0]:.9g}, coordinate ascent: {ca[0]:.9g}")
                run.probe("versus_ca")
        elif o == "interrupted":
            lib.interrupted(run, op["spec"], lambda: cur.fit(t, y, iters=op["iters"]), op["exc"])
        elif o == "perturb" and lib.has_q(lib.snap(cur), depth):
            # The user, or a different optimiser, moved the posterior.
            from gpcm.normal import NaturalNormal
            import jax.numpy as jnp

            r = np.random.RandomState(op["s"])
            a = cur().approximation
            for w in "uz":
                q = lib.stored_q(lib.snap(cur), w, depth)
                n = len(q.lam)
                A = r.randn(n, n) * op["size"]
                d = NaturalNormal(jnp.array(q.lam[:, None] + op["size"] * r.randn(n, 1)),
                                  jnp.array(q.prec + A @ A.T))
                setattr(a, "q_" + w, d)
            run.probe("perturbed")
        elif o == "stream" and lib.has_q(lib.snap(cur), depth) and depth < 2:
            cur = cur.condition(t, y)
            chain.append(cur)
            depth += 1
            run.probe("streamed")
            if op["d"]:
                lib.qs(cur)
        elif o == "back" and depth > 0:
            # Train the earlier model again.
            chain.pop()
            cur = chain[-1]
            depth -= 1
            run.probe("back_to_earlier_model")
    if plan["converge"]:
        t, y = lib.data(cfg, plan["data"] + 11 * depth)
        lib.guard("fit_failed", lambda: cur.fit(t, y))
        optimal(run, cur, t, y, depth, True)
        run.probe("converged")


def optimal(run, m, t, y, i, both):
    """Coordinate ascent ends with the last update optimal given the other factor, and with
    both optimal once it has converged."""
    s = lib.snap(m)
    r = lib.terms(m(), t, y)
    qu, qz = lib.stored_q(s, "u", i), lib.stored_q(s, "z", i)
    pu = pz = None
    if i > 0:
        pu, pz = lib.stored_q(s, "u", i - 1), lib.stored_q(s, "z", i - 1)
    ou, oz = lib.opt_u(r, qz.mean, qz.m2, pu), lib.opt_z(r, qu.mean, qu.m2, pz)

    def far(a, b):
        # In the geometry of the optimal posterior.
        return max(
            np.max(np.abs(np.linalg.solve(b.L, (a.prec - b.prec) @ np.linalg.inv(b.L).T))),
            np.max(np.abs(np.linalg.solve(b.L, a.lam - b.lam))) / (1 + np.max(np.abs(np.linalg.solve(b.L, b.lam)))),
        )

    du, dz = far(qu, ou), far(qz, oz)
    tol = 1e-5
    if both:
        run.check(du < 1e-3 and dz < 1e-3, "not_optimal_after_convergence", lambda: f"u: {du:.3g}, z: {dz:.3g}")
    else:
        run.check(min(du, dz) < tol, "not_optimal", lambda: f"u: {du:.3g}, z: {dz:.3g} (depth {i})")


def simplify(plan):
    for i, op in enumerate(plan["ops"]):
        if op.get("iters", 1) > 1:
            yield dict(plan, ops=plan["ops"][:i] + [dict(op, iters=1)] + plan["ops"][i + 1:])
    for k in ("converge", "versus_ca"):
        if plan[k]:
            yield dict(plan, **{k: False})
    for f in ("fix_noise", "fix_window", "fix_scale"):
        if plan["cfg"].get(f):
            c = dict(plan["cfg"])
            c.pop(f)
            yield dict(plan, cfg=c)
