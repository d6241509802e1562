"""C07: explicit random states and the global random state are kept apart."""
import copy

import numpy as np

from .. import lib, seams, states
from ..core import Violation, derive

META = {
    "runs": {"quick": 2400, "thorough": 60000},
    "deadline": {"quick": 75, "thorough": 780},
    "level": "exploration",
    "rule": "one run = one distribution or model and a seeded history of calls with and without a random state (samples, "
    "ELBOs, predictions, prior samples, training), some interrupted, with the global random states disturbed in between; "
    "every call is made again under other global states or from the same global state and compared bit by bit; "
    "non-trivial if a call was compared",
    "components": {
        "real": "gpcm, stheno, probmods, varz, lab and jax, with their real generators of random numbers",
        "stub": "clock, output stream; the seeds of the global random states are the simulator's; jitted functions run op "
        "by op, except in structured models",
    },
    "assumptions": [
        "the global random state is the one from which lab draws for the data type at hand: JAX's; NumPy's is consulted "
        "only for initial values of variables, the choice of examples and slice sampling",
        "with correct code, whitened samples of two calls correlate beyond 7 standard errors in fewer than 1e-11 of the runs",
    ],
}


def gen(g, tier):
    what = g.weighted([("dist", 3), ("model", 5)])
    plan = {"what": what, "s": g.randrange(2**31)}
    if what == "dist":
        plan["n"] = g.pick([1, 2, 3, 5])
        plan["numpy"] = g.chance(0.25)
        plan["lam"] = g.pick(["zero", "some", "some"])
        ops = [("explicit", 3), ("implicit", 3), ("disturb", 1), ("chain", 2), ("interrupted", 1)]
        num = [1, 1, 2, 3, 7, 40]
    else:
        kind, fam = lib.lane(g)
        plan["kind"], plan["scheme"] = kind, lib.scheme_of(g, fam)
        plan["variant"] = g.randrange(2)
        st = plan["scheme"] == "structured"
        plan["jit"] = st
        ops = [("elbo", 3), ("q", 2), ("sample", 2), ("kernel", 2), ("filter", 1), ("psd", 1), ("disturb", 1), ("interrupted", 1),
               ("post", 2)]
        ops += [] if st else [("fit", 2), ("collapsed", 2)]
        num = [1, 2, 3, 8]
    plan["ops"] = [
        {"op": g.weighted(ops), "s": g.randrange(2**31), "num": g.pick(num), "prior": g.chance(0.4),
         "what": g.pick(["u", "z"]), "n": g.logint(1, 60), "iters": g.pick([1, 2])}
        for _ in range(g.randrange(2, 7 if what == "dist" else 5))
    ]
    return plan


# Outcomes and states, made comparable.


def mark(state):
    """A fingerprint of an explicit state."""
    if isinstance(state, np.random.RandomState):
        s = state.get_state()
        return (s[0], s[1].tobytes(), s[2], s[3], s[4])
    return np.asarray(state).tobytes()


def arrays(x):
    if isinstance(x, dict):
        return {k: np.array(lib.num(v)) for k, v in x.items()}
    return {"": np.array(lib.num(x))}


def equal(a, b):
    return sorted(a) == sorted(b) and all(lib.same(a[k], b[k]) for k in a)


class World:
    """Knows how to set, read and disturb the states from which the code may draw."""

    def __init__(self, run, numpy=False):
        self.run, self.numpy = run, numpy
        self.hist = []  # whitened draws, which must be independent

    def fresh(self, seed):
        import jax.numpy as jnp
        import lab.jax as B

        return B.create_random_state(np.float64 if self.numpy else jnp.float64, seed=seed % 2**31)

    def put(self, state):
        import lab.jax as B

        if self.numpy:
            np.random.set_state(state.get_state())
        else:
            B.jax_global_random_state = state

    def get(self):
        """Fingerprint of the global state that counts."""
        s = seams.global_states()
        return s[0] if self.numpy else s[1]

    def explicit(self, name, f, seed, draws=True):
        """f(state) -> (state, outcome)"""
        run = self.run
        s1, s2 = self.fresh(seed), self.fresh(seed)
        before = mark(s1)
        seams.seed_globals(derive("a", seed))
        if self.numpy:
            # The global state must be unlike the given one.
            np.random.seed(derive("b", seed) % 2**32)
        g = self.get()
        t1, x1 = f(s1)
        run.check(self.get() == g, "explicit_call_touches_global_state", name)
        seams.seed_globals(derive("c", seed))
        g = self.get()
        t2, x2 = f(s2)
        run.check(self.get() == g, "explicit_call_touches_global_state", name)
        a1, a2 = arrays(x1), arrays(x2)
        run.check(equal(a1, a2), "explicit_call_depends_on_global_state", lambda: f"{name}: {a1} / {a2}"[:600])
        run.check(mark(t1) == mark(t2), "returned_state_depends_on_global_state", name)
        if draws:
            run.check(mark(t1) != before, "explicit_state_not_advanced", name)
        for k in sorted(a1):
            run.log_array(name + k, a1[k])
        return t1, a1

    def implicit(self, name, f, seed, explicit=None, draws=True):
        """f() -> outcome. Compared with explicit(state) -> (state, outcome)."""
        run = self.run
        np_seed = derive("np", seed) % 2**32

        def once():
            if not self.numpy:
                np.random.seed(np_seed)
            self.put(self.fresh(seed))
            x = arrays(f())
            return x, self.get()

        x1, g1 = once()
        # The next call continues from there.
        if not self.numpy:
            np.random.seed(np_seed)
        y = arrays(f())
        g2 = self.get()
        x2, g3 = once()
        run.check(equal(x1, x2), "not_determined_by_global_state", lambda: f"{name}: {x1} / {x2}"[:600])
        run.check(g1 == g3, "global_state_not_determined", name)
        if draws:
            start = mark(self.fresh(seed))
            run.check(g1 != start, "global_state_not_advanced", name)
            run.check(g2 not in (g1, start), "global_state_not_advanced", name)
            run.check(not equal(x1, y), "consecutive_calls_equal", lambda: f"{name}: {x1}"[:600])
        else:
            run.check(equal(x1, y), "unexplained_randomness", lambda: f"{name}: {x1} / {y}"[:600])
        if explicit:
            t, z = explicit(self.fresh(seed))
            z = arrays(z)
            run.check(equal(x1, z), "implicit_differs_from_explicit", lambda: f"{name}: {x1} / {z}"[:600])
            if not self.numpy:
                run.check(mark(t) == g1, "global_state_not_written_back", name)
        for k in sorted(x1):
            run.log_array(name + k, x1[k])
        self.put(self.fresh(derive("after", seed)))
        return x1, y

    def independent(self, name, e1, e2):
        """Whitened samples: standard normal and independent if the code is right."""
        e1, e2 = np.ravel(e1), np.ravel(e2)
        n = len(e1)
        self.run.check(not np.any(e1 == e2), "samples_repeat", name)
        if n >= 40:
            c = abs(e1 @ e2) / np.sqrt((e1 @ e1) * (e2 @ e2)) * np.sqrt(n)
            self.run.check(c < 7.5, "samples_depend_on_each_other", lambda: f"{name}: {c:.1f} standard errors")

    def interrupted(self, name, f, seed, n):
        """After an interrupted call, the global state is usable, and calls go on as usual from it."""
        import lab.jax as B

        run = self.run
        self.put(self.fresh(seed))
        np.random.seed(derive("np", seed) % 2**32)
        lib.interrupted(run, {"mode": "count", "n": n}, f)
        lib.unindent()
        if not self.numpy:
            s = B.jax_global_random_state
            seams.seed_globals(derive("d", seed))
            try:
                s = np.array(s)
                ok = s.shape == (2,) and s.dtype == np.uint32
            except Exception:
                ok = False
            run.check(ok, "global_state_unusable_after_interrupt", name)
        self.put(self.fresh(derive("after", seed)))


def execute(run, plan):
    if plan["what"] == "dist":
        return dist(run, plan)
    return model(run, plan)


def dist(run, plan):
    import jax.numpy as jnp
    from gpcm.normal import NaturalNormal

    r = np.random.RandomState(plan["s"] % 2**32)
    n = plan["n"]
    P = r.randn(n, n)
    P = P @ P.T + np.eye(n)
    lam = r.randn(n, 1) if plan["lam"] == "some" else np.zeros((n, 1))
    c = (lambda x: x) if plan["numpy"] else jnp.array
    d = NaturalNormal(c(lam), c(P))
    ref = lib.G(lam, P)
    w = World(run, plan["numpy"])

    def white(x):
        return ref.L.T @ (x - ref.mean[:, None])

    for op in plan["ops"]:
        o, num, s = op["op"], op["num"], op["s"]
        run.log(o, num)

        def f(state):
            return d.sample(state, num)

        if o == "explicit":
            w.explicit("sample", f, s)
        elif o == "implicit":
            a, b = w.implicit("sample", lambda: d.sample(num), s, f)
            w.independent("sample", white(a[""]), white(b[""]))
        elif o == "chain":
            state = w.fresh(s)
            xs = []
            for _ in range(3):
                state, x = d.sample(state, num)
                xs.append(white(lib.num(x)))
            for i, j in ((0, 1), (1, 2), (0, 2)):
                w.independent("chain", xs[i], xs[j])
            if num > 1:
                e = np.array(xs)
                run.check(len(np.unique(e.round(13))) == e.size, "samples_repeat", "within a call")
        elif o == "interrupted":
            w.interrupted("sample", lambda: d.sample(num), s, op["n"])
        elif o == "disturb":
            seams.seed_globals(s)
        run.probe(o)


def model(run, plan):
    cfg, m, (t, y) = states.trained(plan["kind"], plan["scheme"] if plan["scheme"] == "structured" else "mean-field-ca", plan["variant"])
    m.scheme = plan["scheme"]
    st = plan["scheme"] == "structured"
    m()
    if st:
        lib.qs(m)
    w = World(run)
    tk = np.linspace(0, 1.5 * cfg["window"], 5)
    try:
        post = m.condition(t, y)
    except Exception as e:
        raise Violation("condition_failed", repr(e)[:300])
    for op in plan["ops"]:
        o, num, s = op["op"], op["num"], op["s"]
        run.log(o, num, op["prior"])
        target = m if op["prior"] else post
        name = o + (" of the prior" if op["prior"] else "")
        draws = op["prior"] or not st
        t2, y2 = lib.data(cfg, s % 1000)
        if o == "elbo":
            # The ELBO of a structured model refines and stores a mean-field approximation, so
            # every call gets its own copy of the model.
            def e(state):
                return copy.deepcopy(m).elbo(state, t2, y2, **kw)

            kw = {"num_samples": num} if st else {}
            if not st or s % 2:
                w.explicit(name, e, s, st)
            if not st or not s % 2:
                w.implicit(name, lambda: copy.deepcopy(m).elbo(t2, y2, **kw), s, e, st)
        elif o == "collapsed":
            kw = {"collapsed": op["what"]}
            w.explicit(name, lambda state: m.elbo(state, t2, y2, **kw), s, False)
            w.implicit(name, lambda: m.elbo(t2, y2, **kw), s, lambda state: m.elbo(state, t2, y2, **kw), False)
        elif o == "q":
            # A distribution of the model.
            a = m().approximation
            q = getattr(a, ("p_" if op["prior"] or st else "q_") + op["what"])
            w.explicit(name, lambda state: q.sample(state, num), s)
            a, b = w.implicit(name, lambda: q.sample(num), s, lambda state: q.sample(state, num))
            ref = lib.G(lib.num(q.lam) * np.ones((int(q.dim), 1)), lib.num(q.prec))
            w.independent(name, ref.L.T @ (a[""] - ref.mean[:, None]), ref.L.T @ (b[""] - ref.mean[:, None]))
        elif o == "sample":
            ts = np.linspace(0, 2, 3)
            w.implicit(name, lambda: dict(zip("Ky", m.sample(ts))), s)
        elif o == "kernel":
            w.implicit(name, lambda: dict(zip("tk", target.sample_kernel(tk, num_samples=num))), s, draws=draws)
        elif o == "psd":
            w.implicit(name, lambda: target.predict_psd(tk, num_samples=num).all_samples, s, draws=draws)
        elif o == "filter":
            w.implicit(name, lambda: target.predict_filter(tk, num_samples=num, min_phase=False).all_samples, s)
        elif o == "post":
            # Nothing random about these, but for the prior of a structured model.
            kw = {"num_samples": num} if st else {}
            d = st and op["prior"]
            w.implicit(name, lambda: dict(zip("mv", target.predict(tk, **kw))), s, draws=d)
            w.implicit(name, lambda: dict(zip("mv", target.predict_fourier(num_samples=num))), s, draws=d)
        elif o == "interrupted":
            f = {"u": lambda: target.sample_kernel(tk, num_samples=num), "z": lambda: m.sample(tk)}[op["what"]]
            w.interrupted(name, f, s, op["n"])
        elif o == "fit":
            outs = []
            for i in range(2):
                c = copy.deepcopy(m)
                seams.seed_globals(derive("fit", i, s))
                g = w.get()
                c.fit(t2, y2, iters=op["iters"])
                run.check(w.get() == g, "training_touches_global_state", plan["scheme"])
                outs.append(lib.snap(c))
            d = lib.diff_snap(*outs)
            run.check(not d, "training_depends_on_global_state", lambda: f"{plan['scheme']}: {d}")
        elif o == "disturb":
            seams.seed_globals(s)
        run.probe(o)


def simplify(plan):
    for i in range(len(plan["ops"])):
        yield dict(plan, ops=plan["ops"][:i] + plan["ops"][i + 1:])
