"""C14: conditioning is pure and posteriors can be shared by readers."""
import os

import numpy as np

from .. import lib, reads, seams, states
from ..core import Violation

META = {
    "runs": {"quick": 420, "thorough": 20000},
    "deadline": {"quick": 80, "thorough": 780},
    "level": "exploration",
    "rule": "one run = one trained model with several posteriors for different data, either read, conditioned further, "
    "trained on further data, interrupted and saved in a seeded order, or read from two to four threads switched at "
    "calls and jumps of gpcm by a seeded scheduler; every answer is compared with the answer of a posterior made "
    "afresh from an untouched copy of the model; non-trivial if an answer was compared",
    "components": {
        "real": "gpcm, stheno, probmods, varz, lab, jax, real threads run one at a time",
        "stub": "the thread scheduler, clock, output stream, global random seeds; jitted functions run op by op",
    },
    "assumptions": [
        "threads switch where CPython 3.12 checks for it: function entry, after calls, backward jumps",
        "concurrent reads are judged if they are not random (random ones share the global random state)",
    ],
}


def gen(g, tier):
    kind, fam = lib.lane(g, ("ca", "structured"))
    if g.lane in (5, 6):
        fam = "ca"
    if fam == "ca" and g.chance(0.2):
        # The other schemes train posteriors of posteriors as well, with further parameters.
        return {"kind": kind, "variant": g.randrange(2), "d": g.randrange(2), "scheme": g.pick(lib.SCHEMES_MF), "s": g.randrange(2**31),
                "threads": False, "structured": False, "chain": [
                    {"spec": lib.gen_interrupt(g, n_max=4000) if g.chance(0.3) else None, "n": g.pick([8, 8, 3]), "iters": g.pick([1, 10, 20, 30])
                    } for _ in range(g.randrange(1, 3))]}
    threads = g.chance(0.5)
    det = [x for x in reads.DET_MF if x != "elbo_state"] if fam == "ca" else reads.DET_STRUCTURED
    plan = {"kind": kind, "structured": fam == "structured", "variant": g.randrange(2), "d": g.randrange(2),
            "nposts": g.randrange(1, 4), "threads": threads, "s": g.randrange(2**31)}
    if threads:
        plan["mean_switch"] = g.pick([1, 3, 10, 60, 400])
        plan["files"] = g.pick([None, ["approx.py"], ["approx.py", "model.py", "normal.py"]])
        if plan["files"]:
            plan["mean_switch"] = g.pick([1, 2, 5, 20])
        plan["shared"] = g.pick(["model", "model", "instance"])
        plan["queries"] = [
            [{"op": g.weighted([("read", 6), ("condition", 1), ("save", 0.7)]), "post": g.randrange(plan["nposts"]), "what": g.pick(det),
              "s": g.randrange(2**31)} for _ in range(g.randrange(1, 4))]
            for _ in range(g.randrange(2, 5))
        ]
        if g.chance(0.6):
            # Everyone wants the same thing of the same object at the same time.
            plan["shared"] = g.pick(["model", "instance", "instance"])
            plan["nposts"] = 1
            what = g.pick(det[:-1])
            plan["queries"] = [
                [{"op": "read", "post": 0, "what": what, "s": g.randrange(2**31)} for _ in range(g.randrange(1, 3))]
                for _ in range(g.randrange(2, 4))
            ]
    else:
        ops = []
        for _ in range(g.randrange(4, 11)):
            o = g.weighted([("read", 7), ("instance", 1), ("condition", 1.5), ("root", 1.5), ("train", 0 if plan["structured"] else 1.2),
                            ("interrupted", 0.7), ("chain", 0 if plan["structured"] else 0.5)])
            op = {"op": o, "post": g.randrange(plan["nposts"]), "s": g.randrange(2**31)}
            if o in ("read", "root", "interrupted"):
                op["what"] = g.pick(det + reads.RANDOM)
                op["inst"] = g.chance(0.4)
            if o in ("interrupted", "train"):
                op["spec"] = lib.gen_interrupt(g, n_max=1500) if o == "interrupted" or g.chance(0.4) else None
            if o == "root":
                op["what"] = g.pick(["sample", "elbo", "predict" if not plan["structured"] else "samples", "fourier", "samples", "snap"])
                if plan["structured"] and op["what"] == "elbo":
                    op["what"] = "sample"
            ops.append(op)
        plan["ops"] = ops
    return plan


RTOL = 1e-9


def chain(run, plan):
    """Posteriors of posteriors, each trained: whatever is trained, earlier ones stay."""
    cfg, src, _ = states.trained(plan["kind"], "mean-field-ca", plan["variant"], plan["d"])
    path = os.path.join(run.scratch, "m.pickle")
    src.save(path)
    m = lib.build(dict(cfg, scheme=plan["scheme"]))
    m.load(path)
    for i, x in enumerate(plan["chain"]):
        m = m.condition(*lib.data(cfg, plan["s"] % 1000 + i, x["n"]))
        before = {n: v for n, v in lib.snap(m).items() if n.startswith("q_")}
        t, y = lib.data(cfg, plan["s"] % 1000 + 10 + i)
        f = lambda: m.fit(t, y, iters=x["iters"])
        if x["spec"]:
            lib.interrupted(run, x["spec"], f)
            lib.unindent()
        else:
            lib.guard("fit_failed", f)
        after = lib.snap(m)
        run.log("chain", i, sorted(after))
        d = lib.diff_snap(before, after, names=list(before))
        run.check(not d, "training_changed_the_prior", f"{plan['scheme']}: {d}")
        if not x["spec"]:
            run.check(lib.has_q(after, i + 1), "no_new_posterior", str(sorted(after)))
            run.probe("trained")
        elif not lib.has_q(after, i + 1):
            break


def execute(run, plan):
    if "chain" in plan:
        chain(run, plan)
        return
    structured = plan["structured"]
    scheme = "structured" if structured else "mean-field-ca"
    args = (plan["kind"], scheme, plan["variant"], plan["d"])
    cfg, root, _ = states.trained(*args)
    ds = [lib.data(cfg, plan["s"] % 1000 + i, n) for i, n in enumerate([8, 8, 3])]

    def want(i, what, s):
        """The answer of an untouched model."""
        _, m, _ = states.trained(*args)
        p = m if i is None else m.condition(*ds[i])
        return reads.read(p, what, cfg, s)

    snap0 = lib.snap(root)
    posts = [root.condition(*ds[i]) for i in range(plan["nposts"])]
    for p in posts:
        run.check(p is not root, "condition_returned_the_original")
    insts = [None] * len(posts)
    (threaded if plan["threads"] else sequential)(run, plan, cfg, root, posts, insts, want, snap0, ds)


def judge(run, got, ref, what):
    d = reads.differences(got, ref, RTOL)
    run.check(not d, "read_depends_on_history", lambda: f"{what}: {d}: {[got.get(k) for k in d][:2]} should be {[ref.get(k) for k in d][:2]}"[:900])


def sequential(run, plan, cfg, root, posts, insts, want, snap0, ds):
    trained = set()
    for k, op in enumerate(plan["ops"]):
        lib.unindent()
        o, i = op["op"], op["post"]
        run.log(o, i, op.get("what"))
        if o in ("read", "interrupted"):
            if op["inst"]:
                insts[i] = insts[i] if insts[i] is not None else posts[i]()
                target = insts[i]
            else:
                target = posts[i]
            if op["what"] in ("snap",):
                continue
            before = lib.snap(root)
            f = lambda: lib.guard("read_failed", lambda: reads.read(target, op["what"], cfg, op["s"]))
            if o == "interrupted":
                lib.interrupted(run, op["spec"], f)
            got = f()
            reads.log(run, op["what"], got)
            d = lib.diff_snap(before, lib.snap(root))
            run.check(not d, "read_changed_variable", str(d))
            judge(run, got, want(i, op["what"], op["s"]), f"{op['what']} of posterior {i}, op {k}")
        elif o == "instance":
            insts[i] = posts[i]()
        elif o == "condition":
            posts[i] = root.condition(*ds[i])
            insts[i] = None
        elif o == "chain":
            # A posterior of a posterior leaves both alone.
            before = lib.snap(root)
            posts[i].condition(*ds[(i + 1) % 3])
            run.check(not lib.diff_snap(before, lib.snap(root)), "condition_changed_variable")
        elif o == "root":
            if op["what"] == "elbo" and not lib.has_q(lib.snap(root)):
                continue
            ref = want(None, op["what"], op["s"])
            got = lib.guard("read_failed", lambda: reads.read(root, op["what"], cfg, op["s"]))
            if op["what"] == "snap":
                got = {n: v for n, v in got.items() if n in ref}
            judge(run, got, ref, f"{op['what']} of the original, op {k}")
        elif o == "train":
            # Training on further data: the earlier posterior is the prior and stays.
            t2, y2 = ds[(i + 1) % 3]
            f = lambda: posts[i].fit(t2, y2, iters=2)
            if op["spec"]:
                lib.interrupted(run, op["spec"], f)
            else:
                lib.guard("fit_failed", f)
                s = lib.snap(root)
                run.check(lib.has_q(s, 1), "no_new_posterior", str(sorted(s)))
            trained.add(i)
            run.probe("trained")
            s = lib.snap(root)
            d = lib.diff_snap(snap0, s, names=list(snap0))
            run.check(not d, "training_changed_the_prior", str(d))
    s = lib.snap(root)
    d = lib.diff_snap(snap0, s, names=list(snap0))
    run.check(not d, "variable_changed", str(d))
    if not trained:
        run.check(not set(s) - set(snap0), "variable_created", str(set(s) - set(snap0)))


def threaded(run, plan, cfg, root, posts, insts, want, snap0, ds):
    refs = {}
    for qs in plan["queries"]:
        for q in qs:
            key = (q["post"], q["what"], q["s"])
            if q["op"] != "save" and key not in refs:
                refs[key] = want(*key)
    targets = posts
    if plan["shared"] == "instance":
        targets = [p() for p in posts]

    def ask(q, tag):
        if q["op"] == "save":
            path = os.path.join(run.scratch, f"{tag}.pickle")
            root.save(path)
            m = lib.build(cfg)
            m.load(path)
            return lib.snap(m)
        p = targets[q["post"]]
        if q["op"] == "condition":
            p = root.condition(*ds[q["post"]])
        if q["what"] == "snap" and p.instantiated:
            p = root
        return reads.read(p, q["what"], cfg, q["s"], seeded=False)

    def thread(i, qs):
        return lambda: [(q, ask(q, f"{i}-{j}")) for j, q in enumerate(qs)]

    sched = seams.Scheduler(plan["s"], plan["mean_switch"], plan.get("schedule"), files=plan["files"])
    res = sched.run([thread(i, qs) for i, qs in enumerate(plan["queries"])])
    plan["schedule"] = plan.get("schedule", sched.schedule)
    run.fault("thread_switch", len(plan["schedule"]))
    run.log("schedule", plan["schedule"][:300])
    for i, (st, v) in enumerate(res):
        if st != "ok":
            raise Violation("reader_failed", f"thread {i}: {type(v).__name__}: {str(v)[:300]}")
        for q, got in v:
            if q["op"] == "save":
                d = lib.diff_snap(snap0, got, rtol=1e-9)
                run.check(not d, "saved_something_else", str(d))
                continue
            ref = refs[(q["post"], q["what"], q["s"])]
            if q["what"] == "snap":
                ref = snap0
            ref = {k: v for k, v in ref.items() if k in got or k != "samples"}
            judge(run, got, ref, f"{q['what']} of posterior {q['post']} in thread {i}")
            reads.log(run, q["what"], got)
    d = lib.diff_snap(snap0, lib.snap(root))
    run.check(not d, "read_changed_variable", str(d))


def simplify(plan):
    if "chain" in plan:
        if len(plan["chain"]) > 1:
            yield dict(plan, chain=plan["chain"][:1])
        return
    if plan["threads"]:
        qs = plan["queries"]
        if len(qs) > 2:
            for i in range(len(qs)):
                yield dict(plan, queries=qs[:i] + qs[i + 1:])
        for i in range(len(qs)):
            for j in range(len(qs[i])):
                if len(qs[i]) > 1:
                    yield dict(plan, queries=qs[:i] + [qs[i][:j] + qs[i][j + 1:]] + qs[i + 1:])
