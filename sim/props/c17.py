"""C17: same seeds, same results, whatever the environment."""
import gc
import hashlib
import io
import json
import os
import subprocess
import sys
import tempfile

import numpy as np

from .. import env, lib, reads, seams
from ..core import HarnessError, derive
from ..fresh import fresh

META = {
    "runs": {"quick": 800, "thorough": 30000},
    "deadline": {"quick": 80, "thorough": 780},
    "level": "exploration",
    "rule": "one run = one seeded program (training with every scheme, evaluations, predictions, prior samples, changes of "
    "hyperparameters, failing calls, saving and loading, slice sampling), with the random seeds set once at its start, "
    "executed three times on fresh imports: plainly; after other models were used, under another clock (frozen, jumping, "
    "running backwards), working directory, output stream, garbage collection and environment; and in another process "
    "with another hash seed; every array it produces is compared bit by bit; non-trivial if arrays were compared",
    "components": {
        "real": "gpcm, stheno, probmods, varz, lab, jax, NumPy, and a second real process",
        "stub": "clock, output stream, source of entropy; jitted functions run op by op in most runs, and for real in "
        "structured models and an eighth of the others",
    },
    "assumptions": ["the machine and the versions of the dependencies are the same, and linear algebra runs on one thread"],
}


def gen_ops(g, st, n, hypers=0.0):
    ops = []
    for _ in range(n):
        o = g.weighted([("fit", 3), ("condition", 2), ("read", 4), ("prior", 2), ("hyper", 1), ("reload", 0.7), ("fail", 0.5),
                        ("ess", 1), ("rebuild", 0.5)])
        op = {"op": o, "s": g.randrange(2**31), "iters": g.pick([1, 2, 4])}
        if o == "read":
            op["what"] = g.pick(["predict", "fourier", "kernel", "samples", "psd", "filter", "filter_min", "kernel_matrix"])
        elif o == "prior":
            op["what"] = g.pick(["sample", "kernel", "filter", "samples", "elbo"])
        elif o == "fit":
            op["hypers"] = st and g.chance(hypers)
        ops.append(op)
    return ops


def gen(g, tier):
    kind, fam = lib.lane(g)
    scheme = lib.scheme_of(g, fam)
    st = scheme == "structured"
    cfg = lib.gen_cfg(g, [kind], [scheme])
    plan = {
        "cfg": cfg, "s": g.randrange(2**31), "jit": st or g.chance(0.12),
        "ops": gen_ops(g, st, g.randrange(1, 4) if st else g.randrange(2, 6), 0.1 if tier == "thorough" else 0.0),
        "hashseed": 1 + g.lane + (8 * g.randrange(40) if tier == "thorough" and g.sub % 50 == 0 else 0),
        "env": {"clock": g.pick(["frozen", "jumpy", "backward", "slow"]), "cwd": g.chance(0.5), "out": g.pick(["sink", "string"]),
                "gc": g.chance(0.5), "var": g.chance(0.5),
                "before": None if g.chance(0.3) else {
                    "cfg": lib.gen_cfg(g, lib.KINDS, ["mean-field-ca"]), "ops": gen_ops(g, False, g.randrange(1, 3)), "s": g.randrange(2**31)}},
    }
    if plan["env"]["before"] and g.chance(0.5):
        plan["env"]["before"]["cfg"] = dict(cfg, scheme="mean-field-ca", noise=round(cfg["noise"] * 1.3, 4))
    return plan


def digest(r):
    h = hashlib.sha256()
    for k in sorted(r):
        a = np.ascontiguousarray(np.asarray(r[k], float))
        h.update(f"{k}{a.shape}".encode() + a.tobytes())
    return h.hexdigest()[:20]


def ess(op):
    from gpcm.sample import ESS

    r = np.random.RandomState(op["s"] % 2**32)
    c = r.randn(2)
    e = ESS(lambda x: -np.sum((x - c) ** 2), lambda: np.random.randn(2))
    return {"x": np.array(e.sample(3, trace=bool(op["s"] % 2))), "l": np.array(e.log_lik_x)}


def program(spec, scratch):
    """The program. Returns what every operation gave."""
    cfg = spec["cfg"]
    st = cfg["scheme"] == "structured"
    seams.seed_globals(spec["s"])
    m = lib.build(cfg)
    post, out = None, []
    for k, op in enumerate(spec["ops"]):
        o, s = op["op"], op["s"]
        t, y = lib.data(cfg, s % 1000)
        r = {}
        if o == "fit":
            kw = {"iters": op["iters"]}
            if st:
                kw = {"iters": 4, "num_samples": 1, "optimise_hypers": 2 if op.get("hypers") else False}
            m.fit(t, y, **kw)
        elif o == "condition":
            have = [n for n in lib.snap(m) if n.startswith("q_u[0]." + ("samples" if st else "lam"))]
            if have or not st:
                post = m.condition(t, y)
        elif o == "read":
            if post is not None:
                r = reads.read(post, op["what"], cfg, s, seeded=False, columns=True)
        elif o == "prior":
            r = reads.read(m, op["what"], cfg, s, seeded=False, columns=True)
        elif o == "hyper":
            q = np.random.RandomState(s % 2**32)
            m()
            names = [n for n in lib.hyper_names(lib.snap(m)) if n in ("noise", "alpha", "gamma", "omega", "alpha_t", "lambda")]
            if names:
                n = names[s % len(names)]
                m.vs.assign(n, lib.num(m.vs[n]) * np.exp(0.3 * np.tanh(q.randn())))
        elif o == "reload":
            p = os.path.join(scratch, f"m{k}.pickle")
            m()
            m.save(p)
            m = lib.build(cfg)
            m.load(p)
            post = None
        elif o == "rebuild":
            m, post = lib.build(cfg), None
        elif o == "ess":
            r = ess(op)
        elif o == "fail":
            try:
                m.fit(t, y[:-1], iters=1, nonsense=1)
            except Exception as e:
                r = {}
            lib.unindent()
        r = dict(r)
        r.update({"~" + n: v for n, v in lib.snap(m).items()})
        out.append([o + " " + str(op.get("what", "")), digest(r)])
    return out


def outcome(spec, scratch):
    try:
        return program(spec, scratch)
    except Exception as e:
        lib.unindent()
        return [["raised", type(e).__name__ + ": " + str(e)[:200]]]


_children = {}


class Child:
    """A second process, under another hash seed, in another directory."""

    def __init__(self, hashseed):
        base = tempfile.mkdtemp(prefix="gpcmsim-child-")
        e = env.child_env(hashseed, SIM_CHILD="1", TZ="Asia/Tokyo", COLUMNS="33")
        self.p = subprocess.Popen([env.PYTHON, "-m", "sim.worker", "C17", base], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                  cwd="/", env=e, text=True)
        if not self.p.stdout.readline():
            raise HarnessError("second process did not start")

    def call(self, plan):
        try:
            self.p.stdin.write(json.dumps({"id": 0, "plan": plan}) + "\n")
            self.p.stdin.flush()
            line = self.p.stdout.readline()
        except (BrokenPipeError, OSError):
            line = ""
        if not line:
            raise HarnessError("second process died")
        return json.loads(line)


def child(hashseed):
    if hashseed not in _children or _children[hashseed].p.poll() is not None:
        for c in _children.values():
            c.p.kill()
            c.p.wait()
        _children.clear()
        _children[hashseed] = Child(hashseed)
    return _children[hashseed]


def execute(run, plan):
    spec = {k: plan[k] for k in ("cfg", "ops", "s")}
    if plan.get("role") == "child":
        with fresh():
            run.extra = outcome(spec, run.scratch)
        return

    def folder(n):
        d = os.path.join(run.scratch, n)
        os.mkdir(d)
        return d

    with fresh():
        a = outcome(spec, folder("a"))
    for tag, h in a:
        run.log(tag, h)

    e = plan["env"]
    cwd, out = os.getcwd(), sys.stdout
    with fresh():
        try:
            if e["before"]:
                outcome(e["before"], folder("before"))
                run.probe("other_models_used_before")
            clock = seams.Clock(derive("other", plan["seed"]), e["clock"])
            seams.set_clock(clock)
            if e["cwd"]:
                os.chdir(folder("elsewhere"))
            if e["out"] == "string":
                sys.stdout = io.StringIO()
            if e["gc"]:
                gc.disable()
            if e["var"]:
                os.environ["COLUMNS"], os.environ["TZ"] = "11", "America/Lima"
            b = outcome(spec, folder("b"))
        finally:
            os.chdir(cwd)
            sys.stdout = out
            gc.enable()
            os.environ.pop("COLUMNS", None)
            os.environ.pop("TZ", None)
    run.fault("clock_" + e["clock"])
    compare(run, a, b, "depends_on_environment")

    q = child(plan["hashseed"]).call(dict(plan, role="child", clock="jumpy"))
    if q["status"] != "ok":
        raise HarnessError(f"second process: {q.get('msg')}"[:500])
    run.fault("other_process")
    compare(run, a, q["extra"], "depends_on_process")
    run.probe("raised", a[-1][0] == "raised")


def compare(run, a, b, kind):
    for i, (x, y) in enumerate(zip(a, b)):
        run.check(list(x) == list(y), kind, lambda: f"operation {i}, {x} / {y}")
    run.check(len(a) == len(b), kind, lambda: f"{a[-1]} / {b[-1]}")


def simplify(plan):
    for i in range(len(plan["ops"])):
        yield dict(plan, ops=plan["ops"][:i] + plan["ops"][i + 1:])
    if plan["env"]["before"]:
        yield dict(plan, env=dict(plan["env"], before=None))
