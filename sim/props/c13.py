"""C13: independent models do not interfere."""
import os

import numpy as np

from .. import lib, reads, seams
from ..core import Violation
from ..fresh import fresh

META = {
    "runs": {"quick": 330, "thorough": 16000},
    "deadline": {"quick": 80, "thorough": 780},
    "level": "exploration",
    "rule": "one run = two or three models, each with its own seeded sequence of operations (training, evaluation, "
    "predictions, changes, saves and loads, failing and interrupted calls), interleaved operation by operation by a "
    "seeded order, or run in threads switched at calls and jumps of gpcm; every result and every variable is compared "
    "with those of the same sequence run alone on a fresh import of the package; non-trivial if results were compared",
    "components": {
        "real": "gpcm, stheno, probmods, varz, lab, jax, files, real threads run one at a time",
        "stub": "the thread scheduler, clock, output stream, global random seeds (set before every operation); jitted "
        "functions run op by op, except for structured models",
    },
    "assumptions": [
        "threads switch where CPython 3.12 checks for it: function entry, after calls, backward jumps",
        "operations that draw from the global random state are not run in threads",
    ],
}

FRESH = True
RTOL = 1e-9


def gen(g, tier):
    threads = g.chance(0.45)
    n = g.pick([2, 2, 3])
    alike = g.chance(0.4)
    structured = g.lane in (3, 7) and not threads
    second = g.chance(0.7)
    models = []
    base = None
    for i in range(n):
        kind = lib.KINDS[(g.lane + (0 if alike else i)) % 3]
        scheme = "mean-field-ca"
        if g.lane == 6 and g.chance(0.5):
            scheme = g.pick(lib.SCHEMES_MF)
        if structured and (i == 0 or second and i == 1):
            scheme = "structured"
        cfg = lib.gen_cfg(g, [kind], [scheme])
        if alike and base is not None:
            # The same but for little, so that anything shared is mistaken easily.
            cfg = dict(base, scheme=scheme)
            f = g.pick(["noise", "scale", "window", "T", "alpha_t", "gamma", None])
            if f in ("alpha_t", "gamma"):
                cfg[f] = round(g.uniform(0.6, 1.4), 3)
            elif f:
                cfg[f] = round(base[f] * 1.2, 4)
        base = base or cfg
        ops = []
        for _ in range(g.randrange(2, 5) if not (structured or scheme != "mean-field-ca") else g.randrange(1, 3)):
            o = g.weighted([("fit", 3), ("elbo", 2), ("post", 3), ("hyper", 1), ("save", 0.7), ("load", 1), ("fail", 0.8),
                            ("rebuild", 0.4)] + ([] if threads else [("root", 2), ("interrupted", 1)]))
            op = {"op": o, "s": g.randrange(2**31), "iters": g.pick([1, 2, 4])}
            if o == "post":
                op["what"] = g.pick(["predict", "fourier", "kernel_matrix"] if threads else
                                    ["predict", "fourier", "kernel", "samples", "filter", "filter_min", "kernel_matrix"])
            elif o == "root":
                op["what"] = g.pick(["sample", "samples", "sample", "kernel", "filter", "elbo"])
            elif o == "fail":
                op["how"] = g.pick(["shape", "missing", "argument", "collapsed"])
            elif o == "interrupted":
                op["spec"] = lib.gen_interrupt(g, n_max=2000)
            ops.append(op)
        if scheme == "structured" and g.chance(0.8):
            # Nothing else happens to an untrained one.
            ops[0] = {"op": "fit", "s": ops[0]["s"], "iters": 4}
        models.append({"cfg": cfg, "ops": ops})
    plan = {"models": models, "threads": threads, "s": g.randrange(2**31), "jit": structured}
    if threads:
        plan["mean_switch"] = g.pick([1, 3, 10, 60, 400])
        plan["files"] = g.pick([None, ["approx.py"], ["approx.py", "model.py", "normal.py"], ["gpcm.py", "rgpcm.py", "exppoly.py"]])
    else:
        order = [i for i, m in enumerate(models) for _ in m["ops"]]
        g.shuffle(order)
        plan["order"] = order
    return plan


class World:
    """One model and what happened to it."""

    def __init__(self, spec, folder, seed):
        self.cfg, self.seed = spec["cfg"], seed
        self.path = os.path.join(folder, "m.pickle")
        self.saved = False
        self.tainted = False
        self.make(0)

    def make(self, s):
        seams.seed_globals(self.seed + s)
        self.m = lib.build(self.cfg)
        self.mf = self.cfg["scheme"] != "structured"
        self.loaded = False
        if self.mf:
            lib.qs(self.m)

    def do(self, run, op, threads):
        """Perform an operation; returns its results as arrays."""
        cfg, m, o = self.cfg, self.m, op["op"]
        if not threads:
            seams.seed_globals(op["s"])
        t, y = lib.data(cfg, op["s"] % 1000)
        kw = {"iters": op["iters"]} if self.mf else {"iters": 4, "optimise_hypers": False, "num_samples": 1}
        if o == "fit":
            m.fit(t, y, **kw)
        elif o == "interrupted":
            lib.interrupted(run, op["spec"], lambda: m.fit(t, y, **kw))
            lib.unindent()
            # Where exactly it stops may legitimately depend on what is cached.
            self.tainted = True
        elif o == "elbo":
            if self.mf:
                return reads.read(m, "elbo_state", cfg, op["s"], seeded=not threads)
        elif o == "post":
            s = lib.snap(m)
            if self.mf or "q_z[0].samples" in s:
                p = m.condition(t, y)
                return reads.read(p, op["what"], cfg, op["s"], seeded=not threads)
        elif o == "root":
            if op["what"] == "elbo" and not self.mf:
                return {}
            return reads.read(m, op["what"], cfg, op["s"])
        elif o == "hyper":
            r = np.random.RandomState(op["s"])
            m()
            names = [n for n in lib.hyper_names(lib.snap(m)) if n in ("noise", "alpha", "gamma", "omega", "alpha_t", "lambda")]
            if names:
                n = names[op["s"] % len(names)]
                m.vs.assign(n, lib.num(m.vs[n]) * np.exp(0.3 * np.tanh(r.randn())))
        elif o == "save":
            m.save(self.path)
            self.saved = True
        elif o == "load":
            if self.saved:
                m.load(self.path)
        elif o == "rebuild":
            if not threads:
                self.make(op["s"])
        elif o == "fail":
            try:
                if op["how"] == "shape":
                    m.fit(t, y[:-1], **kw)
                elif op["how"] == "missing":
                    m.load(self.path + ".missing")
                elif op["how"] == "argument":
                    m.fit(t, y, nonsense=1)
                else:
                    m.elbo(t, y, collapsed="nonsense")
            except Exception as e:
                return {"failed": np.array(1.0)}
            finally:
                lib.unindent()
            return {"failed": np.array(0.0)}
        return {}


def step(run, w, op, threads=False):
    if w.tainted:
        if not threads:
            seams.seed_globals(op["s"])
        try:
            return w.do(run, op, threads), None
        except Exception:
            return {}, None
    res = w.do(run, op, threads)
    return res, lib.snap(w.m)


def execute(run, plan):
    specs = plan["models"]
    n = len(specs)

    def folder(i, tag):
        d = os.path.join(run.scratch, f"{tag}{i}")
        os.mkdir(d)
        return d

    worlds = [World(specs[i], folder(i, "all"), plan["s"] + i) for i in range(n)]
    got = [[] for _ in range(n)]
    if plan["threads"]:
        def thread(i):
            def body():
                for op in specs[i]["ops"]:
                    got[i].append(step(run, worlds[i], op, True))
            return body

        sched = seams.Scheduler(plan["s"], plan["mean_switch"], plan.get("schedule"), files=plan["files"])
        res = sched.run([thread(i) for i in range(n)])
        plan["schedule"] = plan.get("schedule", sched.schedule)
        run.fault("thread_switch", len(plan["schedule"]))
        run.log("schedule", plan["schedule"][:300])
        errors = [v if st != "ok" else None for st, v in res]
    else:
        errors = [None] * n
        at = [0] * n
        for i in plan["order"]:
            if i >= n or at[i] >= len(specs[i]["ops"]) or errors[i]:
                continue
            op = specs[i]["ops"][at[i]]
            at[i] += 1
            run.log(i, op["op"], op.get("what"))
            try:
                got[i].append(step(run, worlds[i], op))
            except Violation:
                raise
            except Exception as e:
                errors[i] = e
                lib.unindent()
    # Each alone.
    for i in range(n):
        if worlds[i].tainted:
            run.probe("tainted")
            continue
        with fresh():
            w = World(specs[i], folder(i, "alone"), plan["s"] + i)
            error, want = None, []
            for op in specs[i]["ops"][: len(got[i]) + (errors[i] is not None)]:
                try:
                    want.append(step(run, w, op, plan["threads"]))
                except Exception as e:
                    error = e
                    lib.unindent()
                    break
        run.check((errors[i] is None) == (error is None), "fails_only_next_to_others" if errors[i] else "fails_only_alone",
                  lambda: f"model {i}: {errors[i]!r} / {error!r}"[:600])
        run.check(len(want) == len(got[i]), "different_course", lambda: f"model {i}: {len(got[i])} / {len(want)} operations")
        for k, ((a, sa), (b, sb)) in enumerate(zip(got[i], want)):
            op = specs[i]["ops"][k]
            d = reads.differences(a, b, RTOL)
            run.check(not d, "result_depends_on_other_models", lambda: f"model {i}, op {k} {op['op']} {op.get('what')}: {d}")
            d = lib.diff_snap(sa, sb, RTOL)
            run.check(not d, "variable_depends_on_other_models", lambda: f"model {i} after op {k} {op['op']}: {d}")
            reads.log(run, op["op"], a)
        run.probe("compared", len(want))


def simplify(plan):
    ms = plan["models"]
    if len(ms) > 2:
        for i in range(len(ms)):
            p = dict(plan, models=ms[:i] + ms[i + 1:])
            if "order" in p:
                p["order"] = [j - (j > i) for j in p["order"] if j != i]
            if "schedule" in p:
                p.pop("schedule")
            yield p
    for i, m in enumerate(ms):
        for j in range(len(m["ops"])):
            p = dict(plan, models=ms[:i] + [dict(m, ops=m["ops"][:j] + m["ops"][j + 1:])] + ms[i + 1:])
            if "order" in p:
                o = list(p["order"])
                o.pop(max(k for k, x in enumerate(o) if x == i))
                p["order"] = o
            yield p
