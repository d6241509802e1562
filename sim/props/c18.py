"""C18: every documented operation works for every scheme in any legal order."""
import os

import numpy as np

from .. import lib, seams
from ..core import Violation

META = {
    "runs": {"quick": 400, "thorough": 20000},
    "deadline": {"quick": 75, "thorough": 780},
    "level": "exploration",
    "rule": "one run = one model with seeded constructor options and a documented scheme taken through a seeded history of "
    "all public operations in a legal order, with failing calls, interrupts, output errors and restarts in between; every "
    "result is checked for shape, finiteness, positive variances and ordered quantiles; non-trivial if a result was checked",
    "components": {
        "real": "gpcm, stheno, probmods, varz, lab, jax, SciPy's optimiser, files",
        "stub": "clock, output stream, random seeds; jitted functions run op by op in most mean-field runs",
    },
    "assumptions": ["data of the order of the prior's scale", "samples of spectra may vanish, hence be minus infinity in dB"],
}


def options(g, kind, scheme):
    """Constructor arguments, as documented, in JSON."""
    T = round(g.uniform(2.0, 5.0), 2)
    w = round(g.uniform(0.6, 2.0), 3)
    s = round(g.uniform(0.35, 0.9), 3)
    w = max(w, round(1.1 * s, 3))  # The window is the longest length scale.
    kw = {"scheme": scheme if g.chance(0.85) else scheme.upper(), "window": w, "scale": s, "t": [0.0, T]}
    if g.chance(0.3):
        kw["t"] = [round(x, 3) for x in np.linspace(0, T, 6)]
    elif g.chance(0.2):
        t0 = round(g.uniform(-3, 3), 2)
        kw["t"] = [t0, t0 + T]
    if g.chance(0.8):
        kw["noise"] = round(10 ** g.uniform(-2, -0.3), 4)
    for f in ("fix_noise", "fix_window", "fix_scale"):
        if g.chance(0.2):
            kw[f] = True
    # Few different sizes per worker: every new array shape is compiled.
    nu, nz = 4 + g.lane % 3, 3 + g.lane % 4
    if g.chance(0.15):
        nu, nz = g.randrange(3, 8), g.randrange(3, 9)
    kw["n_u"] = nu
    if g.chance(0.2):
        del kw["n_u"]
        kw["n_u_cap"] = 6
    if kind == "RGPCM":
        o = g.randrange(4)
        if o == 0:
            kw["m_max"] = 1 + nz // 2
        elif o == 1:
            kw["m_max_cap"] = 4
        elif o == 2:
            kw["n_z"] = nz
        else:
            kw["m_max"] = 3
            kw["ms"] = list(range(7))
        if g.chance(0.15):
            kw["a"] = kw["t"][0] - round(g.uniform(4.2, 6) * w, 3)
            kw["b"] = kw["t"][-1] + round(g.uniform(0, 1), 3)
        if g.chance(0.15):
            kw["lam"] = round(1 / s, 3)
        if g.chance(0.15):
            kw["alpha"] = round(1 / w, 3)
        if g.chance(0.15):
            kw["gamma"] = round(g.uniform(0.2, 3), 3)
        if g.chance(0.1):
            kw["gamma_t"] = round(g.uniform(0.5, 2), 3)
        if g.chance(0.15):
            kw["t_u"] = [round(x, 4) for x in np.linspace(0, 2 * w, nu)]
            kw.pop("n_u", None)
    else:
        kw["n_z"] = nz
        if g.chance(0.2):
            del kw["n_z"]
            kw["n_z_cap"] = 8
        if g.chance(0.15):
            kw["alpha"] = round(np.pi / 4 / w**2, 4)
            if "n_u" in kw and g.chance(0.5):
                del kw["window"]
        if g.chance(0.15):
            kw["gamma"] = round(np.pi / 4 / s**2, 4)
            if "n_u" in kw and "n_z" in kw and "window" in kw and g.chance(0.5):
                del kw["scale"]
        if g.chance(0.15):
            kw["omega"] = round(g.uniform(1, 6), 3)
        if g.chance(0.15):
            kw["extend_t_z"] = True
        if g.chance(0.2):
            n = nu
            lo = g.pick([-2 * w if kind == "GPCM" else -w / 2, 0, w / 8])
            kw["t_u"] = [round(x, 4) for x in np.linspace(lo, 2 * w, n)]
            kw.pop("n_u", None)
        if g.chance(0.15) and not kw.get("extend_t_z"):
            n = nz
            kw["t_z"] = [round(x, 4) for x in np.linspace(kw["t"][0], kw["t"][-1], n)]
            kw.pop("n_z", None)
    if g.chance(0.15):
        kw["alpha_t"] = round(g.uniform(0.5, 1.5), 3)
    return kw


def gen(g, tier):
    kind = lib.KINDS[g.lane % 3] if g.lane < 6 else lib.KINDS[g.sub % 3]
    fam = ["mf", "structured", "mf"][(g.lane // 3) % 3]
    if g.lane >= 6:
        fam = "mf"
    scheme = "structured" if fam == "structured" else "mean-field-ca" if g.lane < 6 else lib.SCHEMES_MF[1:][g.sub // 3 % 5]
    grad = fam == "mf" and scheme != "mean-field-ca"
    ops = []
    for _ in range(g.randrange(2, 8 if not grad else 5)):
        o = g.weighted([
            ("fit", 3 if not grad else 1.2), ("sample", 1), ("elbo", 2), ("condition", 2), ("predict", 2.5), ("predict_kernel", 1.5),
            ("predict_psd", 1), ("predict_fourier", 1.5), ("predict_filter", 1.2), ("reload", 1.2), ("fail", 1), ("prior", 1.5),
            ("stream", 0.8 if fam == "mf" else 0), ("instance", 0.5)])
        op = {"op": o, "s": g.randrange(2**31), "n": g.pick([8, 8, 8, 8, 8, 1, 3]), "jax": g.chance(0.3), "int": g.chance(0.1)}
        if o in ("fit", "stream"):
            op["iters"] = g.pick([1, 3, 10]) if not grad else g.pick([1, 5, 5, 10])
            op["hypers"] = g.pick([True, False, False, 2])
            op["fault"] = g.pick([None, None, None, "interrupt", "memory", "output"])
            op["spec"] = {"mode": "count", "n": g.logint(1, 6000)}
            op["k"] = g.randrange(1, 8)
        if o == "prior":
            op["what"] = g.pick(["predict", "predict_kernel", "predict_psd", "predict_fourier", "predict_filter"])
        op["ns"] = g.pick([1, 2, 3, 10, 10, None if g.chance(0.15) else 10])
        op["default"] = g.chance(0.1)
        if o == "elbo":
            op["form"] = g.pick(["plain", "plain", "state", "collapsed", "state_collapsed"])
        if o == "reload":
            op["target"] = g.pick(["fresh", "instantiated", "other", "same"])
        if o == "fail":
            op["what"] = g.pick(["shape", "kwarg", "save_dir", "load_missing", "load_torn", "collapsed", "predict_nothing"])
        ops.append(op)
    if grad:
        # Every one of these schemes trains.
        ops = ops[:3]
        ops.insert(g.randrange(len(ops)), dict(ops[0], op="fit", iters=g.pick([1, 5, 5, 10]), hypers=False, fault=None, spec=None, k=1))
    # Learning hyperparameters in the structured approximation is slow: once at most.
    hy = [op for op in ops if op.get("hypers")]
    for op in hy[(1 if g.chance(0.5) else 0):]:
        op["hypers"] = False
    return {"kind": kind, "structured": fam == "structured", "kw": options(g, kind, scheme), "ops": ops, "seed": g.randrange(2**31),
            "jit": fam == "structured" or g.chance(0.15), "bad_scheme": g.chance(0.05)}


def build(plan):
    import warnings

    import gpcm

    kw = dict(plan["kw"])
    kw["t"] = tuple(kw["t"])
    for k in ("t_u", "t_z", "ms"):
        if k in kw:
            kw[k] = np.array(kw[k])
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return getattr(gpcm, plan["kind"])(**kw)


def inputs(plan, op, extra=0.0):
    import jax.numpy as jnp

    r = np.random.RandomState(op["s"] % 2**32)
    lo, hi = plan["kw"]["t"][0] - extra, plan["kw"]["t"][-1] + extra
    n = op["n"]
    t = r.uniform(lo, hi, n) if op["s"] % 2 else np.linspace(lo, hi, n)
    if op["int"]:
        # Distinct integers.
        t = np.arange(int(np.ceil(lo)), int(np.ceil(lo)) + min(n, max(int(hi - lo), 1)))
    y = np.sin(2 * t) + 0.3 * r.randn(len(t))
    if op["jax"]:
        t, y = jnp.array(t), jnp.array(y)
    return t, y


def finite(run, x, what):
    x = lib.num(x)
    run.check(np.isfinite(x).all(), "not_finite", lambda: f"{what}: {np.ravel(x)[:6]}")
    return x


def shape(run, x, s, what):
    run.check(np.shape(lib.num(x)) == tuple(s), "wrong_shape", lambda: f"{what}: {np.shape(lib.num(x))} should be {s}")


def summary(run, p, x, ns, db, what):
    got = lib.num(p.x)
    n = len(got)
    if x is not None:
        run.check(lib.same(got, x, rtol=1e-9), "wrong_inputs", what)
    qs = [p.err_99_lower, p.err_95_lower, p.err_68_lower, p.err_68_upper, p.err_95_upper, p.err_99_upper]
    for k, v in (("mean", p.mean), ("q", qs[0]), ("q", qs[5]), ("q", qs[2]), ("q", qs[3])):
        shape(run, v, (n,), f"{what} {k}")
    shape(run, p.samples, (n, min(ns, 3)), f"{what} samples")
    shape(run, p.all_samples, (n, ns), f"{what} all_samples")
    ok = (lambda v: not np.isnan(v).any() and not np.isposinf(v).any()) if db else (lambda v: np.isfinite(v).all())
    for k, v in [("mean", p.mean), ("samples", p.all_samples)] + [("quantile", q) for q in qs]:
        run.check(ok(lib.num(v)), "not_finite", lambda: f"{what} {k}")
    for a, b in zip(qs, qs[1:]):
        a, b = lib.num(a), lib.num(b)
        run.check(np.all((a <= b + 1e-9 * np.where(np.isfinite(b), np.abs(b) + 1, 1)) | (a == b)), "quantiles_out_of_order", what)
    if not db:
        run.check((lib.num(p.var) >= 0).all(), "negative_variance", what)


def predictions(run, plan, op, m, what, inst, prior):
    """One prediction and its checks."""
    import jax.numpy as jnp

    w = f"{'prior ' if prior else ''}{what}"
    ns = op["ns"]
    kw = {} if ns is None else {"num_samples": ns}
    n = 1000 if ns is None else ns
    if what == "predict":
        t, _ = inputs(plan, op, 0.3)
        if not plan["structured"]:
            kw = {}
        a, b = lib.guard("predict_failed", lambda: m.predict(t, **kw))
        shape(run, a, (len(t),), w)
        shape(run, b, (len(t),), w)
        a, b = finite(run, a, w), finite(run, b, w)
        run.check((b > 0).all(), "variance_not_positive", lambda: f"{w}: {b[:6]}")
        if not op["jax"]:
            run.check(isinstance(m.predict(t, **kw)[0], np.ndarray), "not_numpy", w)
        return a, b
    if what == "predict_fourier":
        a, b = lib.guard("fourier_failed", lambda: m.predict_fourier(**kw))
        shape(run, a, (inst.n_z,), w)
        shape(run, b, (inst.n_z,), w)
        a, b = finite(run, a, w), finite(run, b, w)
        tiny = 1e-9 * np.max(a**2 + np.abs(b)) if plan["structured"] else 0
        run.check((b >= -tiny).all() if plan["structured"] else (b > 0).all(), "variance_not_positive", lambda: f"{w}: {b[:6]}")
        return a, b
    ext = float(lib.num(inst.extent))
    if what == "predict_filter":
        x = np.linspace(-ext, ext, 9) if not op["default"] else None
        mp = bool(op["s"] % 2)
        p = lib.guard("filter_failed", lambda: m.predict_filter(**({} if x is None else {"t_h": x}), min_phase=mp, **kw))
        if x is None:
            x = np.linspace(-ext, ext, 601)
        summary(run, p, x - x[0] if mp else x, n, False, w)
        return p.mean, p.var
    x = np.linspace(0, ext, 7) if not op["default"] else None
    if op["jax"] and x is not None:
        x = jnp.array(x)
    kw.update({} if x is None else {"t_k": x})
    if what == "predict_kernel":
        p = lib.guard("kernel_failed", lambda: m.predict_kernel(**kw))
        summary(run, p, np.linspace(0, ext, 300) if x is None else x, n, False, w)
        k0 = lib.num(p.all_samples)[0]
        run.check((k0 > -1e-6 * np.max(np.abs(k0))).all(), "kernel_variance_negative", w)
    else:
        p = lib.guard("psd_failed", lambda: m.predict_psd(**kw))
        summary(run, p, None, n, True, w)
        f = lib.num(p.x)
        run.check(f[0] == 0 and (np.diff(f) > 0).all(), "frequencies_out_of_order")
    return p.mean, p.var


def execute(run, plan):
    seams.seed_globals(plan["seed"])
    if plan["bad_scheme"]:
        bad = build(dict(plan, kw=dict(plan["kw"], scheme="mean-field-nonsense")))
        try:
            bad()
        except ValueError:
            run.checks += 1
        else:
            raise Violation("undocumented_scheme_accepted")
    m = lib.guard("constructor_failed", lambda: build(plan))
    inst = lib.guard("instantiation_failed", lambda: m())
    mf = not plan["structured"]
    post = None
    fitted = False
    for k, op in enumerate(plan["ops"]):
        o = op["op"]
        run.log(o)
        t, y = inputs(plan, op)
        if o in ("fit", "stream"):
            if mf:
                kw = {"iters": op["iters"]}
            else:
                kw = {"iters": 4, "num_samples": 1, "optimise_hypers": op["hypers"], "rate": 1e-2}
            x = m
            if o == "stream":
                if post is None:
                    post = m.condition(*inputs(plan, dict(op, s=op["s"] + 1)))
                x = post
            fit(run, plan, op, x, t, y, kw)
            if mf or "q_z[0].samples" in m.vs.names:
                fitted = True
            inst = m()
        elif o == "instance":
            inst = lib.guard("instantiation_failed", lambda: m())
        elif o == "sample":
            norm = bool(op["s"] // 2 % 2)
            K, f = lib.guard("sample_failed", lambda: m.sample(t, normalise=norm) if norm else m.sample(t))
            shape(run, K, (len(t), len(t)), "sample K")
            shape(run, f, (len(t),), "sample y")
            finite(run, K, "sample K"), finite(run, f, "sample y")
        elif o == "elbo":
            elbo(run, plan, op, m, t, y)
        elif o == "condition":
            if mf or fitted:
                post = lib.guard("condition_failed", lambda: m.condition(t, y))
        elif o == "prior":
            what = op["what"]
            a, b = predictions(run, plan, op, m, what, m(), True)
            run.log_array("a", lib.num(a))
        elif o == "reload":
            m = reload(run, plan, op, m)
            post = None
            inst = m()
        elif o == "fail":
            fail(run, plan, op, m, t, y)
        else:
            if not mf and not fitted:
                lib.guard("fit_failed", lambda: m.fit(t, y, iters=2, num_samples=1, optimise_hypers=False))
                fitted = True
            if post is None:
                post = lib.guard("condition_failed", lambda: m.condition(t, y))
            a, b = predictions(run, plan, op, post, o, m(), False)
            run.log_array("a", lib.num(a))
            run.log_array("b", lib.num(b))
            run.probe("posterior_" + o)
    lib.log_snap(run, "end", lib.snap(m))


def fit(run, plan, op, m, t, y, kw):
    f = lambda: m.fit(t, y, **kw)
    if op["fault"] is None:
        lib.guard("fit_failed", f)
        run.check(True, "")
    elif op["fault"] == "output":
        lib.interrupted(run, {"mode": "output", "n": op["k"]}, f)
    else:
        lib.interrupted(run, op["spec"], f, op["fault"])
    lib.unindent()


def elbo(run, plan, op, m, t, y):
    import lab.jax as B

    form = op["form"]
    kw = {}
    if plan["structured"]:
        kw["num_samples"] = op["ns"] or 20
        form = form.replace("_collapsed", "").replace("collapsed", "plain")
    if "collapsed" in form:
        kw["collapsed"] = "uz"[op["s"] % 2]
    if "state" in form:
        st = B.create_random_state(np.float64, seed=op["s"] % 1000)
        st, e = lib.guard("elbo_failed", lambda: m.elbo(st, t, y, **kw))
        run.check(isinstance(st, B.RandomState), "no_random_state_returned")
    else:
        e = lib.guard("elbo_failed", lambda: m.elbo(t, y, **kw))
    run.check(np.shape(lib.num(e)) == (), "wrong_shape", f"elbo: {np.shape(lib.num(e))}")
    finite(run, e, "elbo")
    run.log_array("elbo", lib.num(e))


def reload(run, plan, op, m):
    p = os.path.join(run.scratch, "m.pickle")
    lib.guard("save_failed", lambda: m.save(p))
    x = m
    if op["target"] == "fresh":
        x = build(plan)
    elif op["target"] == "instantiated":
        x = build(plan)
        x()
    elif op["target"] == "other":
        x = build(plan)
        x.sample(np.array(plan["kw"]["t"]))
        if not plan["structured"]:
            lib.qs(x)
    lib.guard("load_failed", lambda: x.load(p))
    run.fault("restart")
    return x


def fail(run, plan, op, m, t, y):
    """A call which must fail; what comes after must not suffer."""
    what = op["what"]
    f, exc = {
        "shape": (lambda: m.fit(t, np.zeros(len(t) + 3), iters=1), Exception),
        "kwarg": (lambda: m.fit(t, y, nonsense=1), Exception),
        "save_dir": (lambda: m.save(os.path.join(run.scratch, "nodir", "m.pickle")), OSError),
        "load_missing": (lambda: m.load(os.path.join(run.scratch, "missing.pickle")), OSError),
        "load_torn": (lambda: m.load(torn(run)), Exception),
        "collapsed": (lambda: m.elbo(t, y, collapsed="v"), ValueError if not plan["structured"] else Exception),
        "predict_nothing": (lambda: m.predict(), Exception),
    }[what]
    if what == "shape" and (len(t) == 1 or plan["structured"]):
        # One input broadcasts.
        return
    try:
        f()
    except exc:
        run.fault("failed_call")
    except Exception as e:
        raise Violation("unexpected_failure", f"{what}: {type(e).__name__}: {e}")
    else:
        raise Violation("mistake_accepted", what)
    lib.unindent()


def torn(run):
    p = os.path.join(run.scratch, "torn.pickle")
    with open(p, "wb") as f:
        f.write(b"\x80\x04\x95\x10")
    return p


def simplify(plan):
    for k in list(plan["kw"]):
        if k in ("alpha", "gamma", "omega", "alpha_t", "gamma_t", "lam", "fix_noise", "fix_window", "fix_scale", "extend_t_z", "noise") \
                and not (k == "alpha" and "window" not in plan["kw"]) and not (k == "gamma" and "scale" not in plan["kw"]):
            yield dict(plan, kw={a: b for a, b in plan["kw"].items() if a != k})
    for i, op in enumerate(plan["ops"]):
        for k, v in (("fault", None), ("jax", False), ("int", False), ("default", False)):
            if op.get(k, v) != v:
                yield dict(plan, ops=plan["ops"][:i] + [dict(op, **{k: v})] + plan["ops"][i + 1:])
