"""C10: the ELBO is the bound it claims to be, in every state."""
import numpy as np

from .. import lib, states
from ..core import Violation

META = {
    "runs": {"quick": 230, "thorough": 14000},
    "deadline": {"quick": 75, "thorough": 780},
    "level": "exploration",
    "rule": "one run = one model taken through a seeded history of training, interrupted training, "
    "changes of hyperparameters and posteriors, conditioning and evaluations; after every step the "
    "ELBO is compared with a NumPy reference computed from the stored variables (mean-field), or an "
    "average over random states with a reference Monte Carlo average (structured); non-trivial if an "
    "ELBO was compared",
    "components": {
        "real": "gpcm, probmods, varz, lab, jax",
        "stub": "clock, output stream and random seeds are the simulator's; jitted functions run op by "
        "op for mean-field models",
    },
    "assumptions": [
        "the model's integrals are taken as given (C19)",
        "comparisons of random estimates alarm beyond 7 standard errors",
    ],
}


def gen(g, tier):
    kind, fam = lib.lane(g, ("ca", "structured", "grad"))
    if fam == "structured":
        return {"fam": fam, "kind": kind, "variant": g.randrange(2), "d": g.randrange(2), "jit": True,
                "data": g.randrange(10**6), "n": g.pick([8, 8, 12]), "s": g.randrange(2**31),
                "counts": g.pick([[400], [200, 200], [1, 1, 1, 397], [30] * 5, [1] * 12 + [2] * 6 + [376]]), "noise": round(10 ** g.uniform(-1.5, 0), 3),
                "explicit": g.chance(0.5), "trained": g.chance(0.5)}
    scheme = lib.scheme_of(g, fam)
    if fam == "grad" and g.chance(0.5):
        scheme = "mean-field-ca"
    cfg = lib.gen_cfg(g, [kind], [scheme])
    ops = []
    for _ in range(g.randrange(2, 6)):
        o = g.weighted([("fit", 3 if scheme == "mean-field-ca" else 0.3), ("elbo", 4), ("perturb", 2), ("hyper", 2),
                        ("stream", 1.2), ("interrupted", 0.7 if scheme == "mean-field-ca" else 0.2)])
        op = {"op": o, "d": g.randrange(3), "n": g.pick([1, 4, 8, 8, 11]), "s": g.randrange(2**31),
              "size": round(10 ** g.uniform(-2, 0.5), 3)}
        if o == "interrupted":
            op["spec"] = lib.gen_interrupt(g, n_max=600)
            op["exc"] = g.pick(["interrupt", "memory"])
        ops.append(op)
    ops.append({"op": "elbo", "d": 0, "n": 8, "s": g.randrange(2**31)})
    return {"fam": fam, "cfg": cfg, "ops": ops, "data": g.randrange(10**6), "touch": g.chance(0.5)}


def execute(run, plan):
    (structured if plan["fam"] == "structured" else mean_field)(run, plan)


def mean_field(run, plan):
    import jax.numpy as jnp
    from gpcm.normal import NaturalNormal

    cfg = plan["cfg"]
    m = lib.build(cfg)
    if plan["touch"]:
        lib.qs(m)
    depth = 0
    for k, op in enumerate(plan["ops"]):
        lib.unindent()
        t, y = lib.data(cfg, plan["data"] + op["d"] + 11 * depth, op["n"])
        o = op["op"]
        run.log(o, depth)
        r = np.random.RandomState(op["s"])
        if o == "fit":
            lib.guard("fit_failed", lambda: m.fit(t, y, iters=1 + op["s"] % 5))
        elif o == "interrupted":
            lib.interrupted(run, op["spec"], lambda: m.fit(t, y, iters=3), op["exc"])
        elif o == "perturb" and lib.has_q(lib.snap(m), depth):
            a = m().approximation
            for w in "uz":
                q = lib.stored_q(lib.snap(m), w, depth)
                n = len(q.lam)
                A = r.randn(n, n) * op["size"]
                setattr(a, "q_" + w, NaturalNormal(
                    jnp.array(q.lam[:, None] + op["size"] * r.randn(n, 1)), jnp.array(q.prec + A @ A.T)))
        elif o == "hyper":
            # Move a hyperparameter, as training does.
            names = [n for n in lib.hyper_names(lib.snap(m)) if n in ("noise", "alpha", "gamma", "omega", "alpha_t", "lambda")]
            if names:
                n = names[op["s"] % len(names)]
                m.vs.assign(n, lib.num(m.vs[n]) * np.exp(0.3 * np.tanh(r.randn())))
        elif o == "stream" and lib.has_q(lib.snap(m), depth) and depth < 2:
            m = m.condition(t, y)
            depth += 1
            run.probe("streamed")
        # Evaluate and compare.
        s0 = lib.snap(m)
        e = {}
        e[None] = float(lib.num(lib.guard("elbo_failed", lambda: m.elbo(t, y))))
        s = lib.snap(m)
        d = lib.diff_snap(s0, s, names=list(s0))
        run.check(not d, "elbo_changed_variable", str(d))
        for c in ("z", "u"):
            e[c] = float(lib.num(lib.guard("elbo_failed", lambda: m.elbo(t, y, collapsed=c))))
        d = lib.diff_snap(s, lib.snap(m))
        run.check(not d, "elbo_changed_variable", str(d))
        T = lib.terms(m(), t, y)
        qu, qz = lib.stored_q(s, "u", depth), lib.stored_q(s, "z", depth)
        pu = pz = None
        if depth > 0:
            pu, pz = lib.stored_q(s, "u", depth - 1), lib.stored_q(s, "z", depth - 1)
        ref = {
            None: lib.elbo_terms(T, qu, qz, pu, pz),
            "z": lib.elbo_terms(T, qu, lib.opt_z(T, qu.mean, qu.m2, pz), pu, pz),
            "u": lib.elbo_terms(T, lib.opt_u(T, qz.mean, qz.m2, pu), qz, pu, pz),
        }
        for c, (want, mag) in ref.items():
            run.check(abs(e[c] - want) <= 1e-6 * mag, "elbo_is_not_its_definition",
                      lambda: f"collapsed={c}, depth {depth}: {e[c]:.9g} should be {want:.9g}")
            run.check(e[c] >= e[None] - 1e-6 * (mag + ref[None][1]), "collapsing_lowered_elbo",
                      lambda: f"collapsed={c}: {e[c]:.9g} < {e[None]:.9g}")
        if o == "elbo":
            import lab.jax as B

            # One instance, asked about different data, some of which are the same.
            inst = m()
            tj, t2 = jnp.array(t), jnp.array(t) + 0.25
            y1, y2 = jnp.array(y), jnp.array(1 - 2 * y)
            for a, b in ((tj, y1), (tj, y2), (t2, y2), (tj, y1)):
                v = float(lib.num(lib.guard("elbo_failed", lambda: inst.elbo(a, b))))
                want, mag = lib.elbo_terms(lib.terms(inst, np.array(a), np.array(b)), qu, qz, pu, pz)
                run.check(abs(v - want) <= 1e-6 * mag, "elbo_depends_on_earlier_call", lambda: f"{v:.9g} should be {want:.9g}")
            st = B.create_random_state(np.float64, seed=op["s"] % 2**31)
            st2, v = m.elbo(st, t, y)
            run.check(abs(float(lib.num(v)) - e[None]) <= 1e-6 * ref[None][1], "elbo_depends_on_call")
        run.log("elbo", f"{e[None]:.9g}")


def structured(run, plan):
    import lab.jax as B

    if plan["trained"]:
        cfg, m, _ = states.trained(plan["kind"], "structured", plan["variant"], plan["d"])
    else:
        cfg = states.cfgs(plan["kind"], "structured", plan["variant"])
        m = lib.build(cfg)
        m()
    m.vs.assign("noise", plan["noise"])
    t, y = lib.data(cfg, plan["data"], plan["n"])
    s0 = lib.snap(m)
    st = B.create_random_state(np.float64, seed=plan["s"] % 2**31)
    vals = []
    for c in plan["counts"]:
        if plan["explicit"]:
            st, v = lib.guard("elbo_failed", lambda: m.elbo(st, t, y, num_samples=c))
        else:
            v = lib.guard("elbo_failed", lambda: m.elbo(t, y, num_samples=c))
        vals.append(float(lib.num(v)))
        s = lib.snap(m)
        d = lib.diff_snap(s0, s, names=[n for n in s0 if not n.startswith("q_") or n.endswith(".samples")])
        run.check(not d, "elbo_changed_variable", str(d))
    total = sum(plan["counts"])
    est = float(np.average(vals, weights=plan["counts"]))
    run.check(np.isfinite(est), "elbo_not_finite")
    # Reference.
    T = lib.terms(m(), t, y)
    qu, qz = lib.stored_q(s, "u"), lib.stored_q(s, "z")
    r = np.random.RandomState(plan["s"])
    us = qu.mean + np.linalg.solve(qu.L.T, r.randn(len(qu.mean), 3000)).T
    zs = np.array([lib.log_Z_u(T, u) for u in us])
    kl = qu.kl(lib.G(np.zeros(T.nu), T.K_u))
    want, sd = zs.mean() - kl, zs.std()
    # The posterior at the first of many evaluations may differ from the last one by the
    # tolerance of coordinate ascent.
    se = sd * np.sqrt(1 / total + 1 / 3000) + 1e-4 * (1 + abs(want))
    run.log("structured", f"{est:.6g}", f"{want:.6g}", f"{se:.3g}")
    run.check(abs(est - want) < 7 * se, "elbo_is_not_its_definition",
              lambda: f"estimate {est:.5g} should be {want:.5g}, standard error {se:.3g}")
    dev = np.max(np.abs(zs - zs.mean()))
    for c in sorted(set(plan["counts"])):
        v = [a for a, b in zip(vals, plan["counts"]) if b == c]
        b = 7 * (sd * np.sqrt(1 / (c * len(v)) + 1 / 3000) + 1e-4 * (1 + abs(want))) + 2 * dev / (c * len(v))
        run.check(abs(np.mean(v) - want) <= b, "biased_estimate",
                  lambda: f"{len(v)} estimates from {c} samples: {np.mean(v):.5g} should be {want:.5g} (bound {b:.3g})")
    if plan["counts"][0] > 1 and len(set(vals)) == 1 and len(vals) > 1:
        raise Violation("elbo_not_random", str(vals))
    mf, mag = lib.elbo_terms(T, qu, qz)
    run.check(est >= mf - 7 * se - 1e-6 * mag, "below_mean_field", lambda: f"{est:.5g} < {mf:.5g}, standard error {se:.3g}")
    # It is the optimum of coordinate ascent at these hyperparameters.
    ou, oz = lib.opt_u(T, qz.mean, qz.m2), lib.opt_z(T, qu.mean, qu.m2)
    best, _ = lib.elbo_terms(T, ou, oz)
    up = max(lib.elbo_terms(T, ou, qz)[0], lib.elbo_terms(T, qu, oz)[0])
    run.check(up - mf < 1e-3 * mag, "not_the_mean_field_optimum", lambda: f"{mf:.6g} can be raised to {up:.6g}")


def simplify(plan):
    for i, op in enumerate(plan.get("ops", [])):
        if op["n"] != 4:
            yield dict(plan, ops=plan["ops"][:i] + [dict(op, n=4)] + plan["ops"][i + 1:])
    if plan.get("counts") and len(plan["counts"]) > 1:
        yield dict(plan, counts=[400])
