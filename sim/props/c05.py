"""C05: the slice sampler survives failing callbacks, interrupts and clocks."""
import numpy as np

from .. import lib, seams
from ..core import Violation

META = {
    "runs": {"quick": 6000, "thorough": 120000},
    "deadline": {"quick": 75, "thorough": 780},
    "level": "fault-simulation",
    "rule": "one run = one sampler taken through a seeded history of sampling and moving with "
    "faults: callbacks that raise, return zero likelihood or NaN for a while, interrupts and "
    "failing allocations at any point of the sampler, failing output, clocks that jump or stand "
    "still; after every step the state is compared with a record of all evaluations",
    "components": {
        "real": "gpcm.sample.ESS, its progress reporting, NumPy's global random state",
        "stub": "likelihood and prior callbacks, clock and output stream are the simulator's",
    },
    "assumptions": ["callbacks are deterministic functions of the state outside fault windows"],
}

EXC = {"value": ValueError, "interrupt": KeyboardInterrupt, "memory": MemoryError,
       "runtime": RuntimeError, "float": FloatingPointError}


def gen(g, tier):
    ops = []
    for _ in range(g.randrange(3, 14)):
        o = g.weighted([("sample", 6), ("move", 2), ("twin", 0.6)])
        op = {"op": o, "num": g.pick([1, 1, 2, 5, 30]), "trace": g.chance(0.35), "s": g.randrange(2**31)}
        f = None
        k = g.weighted([("none", 3), ("cb", 3), ("bad", 3), ("point", 4), ("output", 1)])
        if k == "cb":
            f = {"cb": g.pick(["ll", "ll", "prior"]), "at": g.logint(1, 12), "exc": g.pick(list(EXC))}
        elif k == "bad" and o == "sample":
            f = {"bad": g.pick(["nan", "-inf", "mixed"]), "from": g.logint(1, 8), "len": g.logint(1, 350)}
        elif k == "point":
            f = {"point": g.logint(1, 400), "exc": g.pick(["interrupt", "memory"])}
        elif k == "output" and o == "sample":
            f = {"output": g.logint(1, 20)}
            op["trace"] = True
        op["fault"] = f
        ops.append(op)
    return {"ops": ops, "dim": g.randrange(1, 4), "shape": g.pick(["vec", "col", "scalar"]),
            "width": round(g.uniform(0.3, 2), 3), "kind": g.pick(["gauss", "trunc"]), "init": g.chance(0.7),
            "seed2": g.randrange(2**31), "clock": g.pick(["steady", "frozen", "jumpy", "backward", "slow"])}


def execute(run, plan):
    from gpcm.sample import ESS

    dim = 1 if plan["shape"] == "scalar" else plan["dim"]
    sh = {"vec": (dim,), "col": (dim, 1), "scalar": ()}[plan["shape"]]
    r = np.random.RandomState(plan["seed2"])
    target = r.randn(dim)

    def true_ll(x):
        x = np.reshape(np.array(x), -1)
        if plan["kind"] == "trunc" and x[0] < -0.5:
            return -np.inf
        return float(-0.5 * np.sum((x - target) ** 2) / plan["width"] ** 2)

    class World:
        n_ll = n_prior = 0
        fault = None
        seen = None  # proposals evaluated in this operation: bytes -> value given
        start = None  # state at the start of the current ellipse
        ess = None

    W = World()
    W.seen = {}

    def prior():
        W.n_prior += 1
        if W.ess is not None:
            W.start = np.array(W.ess.x).tobytes()
        f = W.fault
        if f and f.get("cb") == "prior" and f["at"] == W.n_prior:
            run.fault("prior_raises")
            raise EXC[f["exc"]]("injected callback failure")
        y = r.randn(*sh)
        return np.asarray(y)

    def log_lik(x):
        W.n_ll += 1
        f = W.fault
        if f and f.get("cb") == "ll" and f["at"] == W.n_ll:
            run.fault("likelihood_raises")
            raise EXC[f["exc"]]("injected callback failure")
        v = true_ll(x)
        if f and "bad" in f and f["from"] <= W.n_ll < f["from"] + f["len"]:
            run.faults["likelihood_" + f["bad"]] += 1
            v = {"nan": np.nan, "-inf": -np.inf, "mixed": [np.nan, -np.inf][W.n_ll % 2]}[f["bad"]]
        # The same state can be proposed again, once its bracket is tiny.
        k = np.array(x).tobytes()
        if not np.isfinite(W.seen.get(k, np.nan)):
            W.seen[k] = v
        return v

    def good_start(rr):
        while True:
            x = np.asarray(rr.randn(*sh))
            if np.isfinite(true_ll(x)):
                return x

    np.random.seed(plan["seed2"] % 2**32)
    if plan["init"]:
        ess = ESS(log_lik, prior, x_init=good_start(r))
    else:
        ess = ESS(log_lik, prior)
        run.check(W.n_prior == 1, "initial_state_not_from_prior")
        if not np.isfinite(ess.log_lik_x):
            ess.move(good_start(r))
    W.ess = ess
    returned = []

    def consistent(when):
        run.check(np.shape(ess.x) == sh, "state_shape", when)
        want = true_ll(ess.x)
        run.check(ess.log_lik_x == want, "state_and_likelihood_disagree",
                  lambda: f"{when}: stored {ess.log_lik_x}, state has {want}")
        run.check(np.isfinite(want), "impossible_state", when)

    for i, op in enumerate(plan["ops"]):
        f = op["fault"]
        if op["op"] == "twin":
            twin(run, ESS, plan, op, true_ll, good_start, sh)
            continue
        before = np.array(ess.x)
        W.n_ll = W.n_prior = 0
        W.seen = {}
        W.fault = f
        W.start = before.tobytes()
        if op["op"] == "move":
            to = good_start(r)
            thunk = lambda: ess.move(to)  # noqa: E731
        else:
            thunk = lambda: ess.sample(op["num"], trace=op["trace"])  # noqa: E731
        err, out, it = None, None, None
        if f and "output" in f:
            seams.sink.arm(f["output"], OSError(5, "injected output failure"))
        try:
            if f and "point" in f:
                it = seams.Interrupter({"mode": "count", "n": f["point"]}, EXC[f["exc"]])
                with it:
                    out = thunk()
            else:
                out = thunk()
        except (Exception, KeyboardInterrupt) as e:
            err = e
        out_fired = seams.sink.disarm()
        if out_fired:
            run.fault("output_error")
        if it is not None and it.fired:
            run.fault(f["exc"])
        W.fault = None
        run.log(op["op"], i, type(err).__name__, W.n_ll, W.n_prior)
        if err is not None and "injected" not in str(err):
            raise Violation("unexpected_exception", f"{type(err).__name__}: {err}")
        now = np.array(ess.x).tobytes()
        consistent(f"after {op['op']} ({f})")
        if op["op"] == "move":
            if err is None:
                run.check(now == to.tobytes(), "moved_elsewhere")
            else:
                run.check(now in (before.tobytes(), to.tobytes()), "moved_elsewhere")
                if f and "cb" in f:
                    run.check(now == before.tobytes(), "failed_move_changed_state")
        else:
            ok = {before.tobytes()} | {k for k, v in W.seen.items() if np.isfinite(v)}
            run.check(now in ok, "state_was_never_evaluated")
            if err is not None and f and "cb" in f:
                run.check(now == W.start, "failing_callback_moved_state", str(f))
                run.probe("callback_failed_in_step")
            if err is None:
                run.check(len(out) == op["num"], "wrong_number_of_samples")
                for x in out:
                    b = np.array(x).tobytes()
                    run.check(b in ok, "sample_was_never_evaluated")
                    run.check(np.isfinite(true_ll(x)), "accepted_impossible")
                    run.check(b == before.tobytes() or np.isfinite(W.seen[b]), "accepted_bad_likelihood")
                run.check(np.array(out[-1]).tobytes() == now, "state_is_not_last_sample")
                bound = 150 * op["num"] + (f["len"] + 300 if f and "bad" in f else 0)
                run.check(W.n_ll <= bound, "too_many_evaluations", f"{W.n_ll} > {bound}")
                returned += [(x, np.array(x).copy()) for x in out]
                if f and "bad" in f and W.n_prior > op["num"]:
                    run.probe("gave_up_on_ellipse")
        # Whatever happened, the sampler goes on.
        W.n_ll = 0
        lib.unindent()
        try:
            out = ess.sample(2)
        except Exception as e:
            raise Violation("cannot_continue", f"{type(e).__name__}: {e}")
        run.check(W.n_ll <= 300, "too_many_evaluations", str(W.n_ll))
        consistent("after continuing")
        returned += [(x, np.array(x).copy()) for x in out]
        run.log_array("x", ess.x)
        for x, c in returned:
            run.check(np.array_equal(x, c), "returned_sample_changed")


def twin(run, ESS, plan, op, true_ll, good_start, sh):
    """Progress reporting and the clock do not matter."""
    keep = np.random.get_state()
    res = []
    for trace, mode in ((False, "steady"), (True, plan["clock"]), (False, plan["clock"])):
        r = np.random.RandomState(op["s"])
        seams.set_clock(seams.Clock(op["s"], mode))
        np.random.seed(op["s"] % 2**32)
        x0 = good_start(r)
        e = ESS(true_ll, lambda: np.asarray(r.randn(*sh)), x_init=x0)
        xs = e.sample(op["num"] + 25, trace=trace)
        res.append((np.stack([np.array(x) for x in xs]), np.random.get_state()[1]))
    np.random.set_state(keep)
    for xs, st in res[1:]:
        run.check(np.array_equal(xs, res[0][0]), "samples_depend_on_trace_or_clock")
        run.check(np.array_equal(st, res[0][1]), "randomness_depends_on_trace_or_clock")
    run.probe("twin")
    if plan["clock"] != "steady":
        run.fault("clock_" + plan["clock"])


def simplify(plan):
    for i, op in enumerate(plan["ops"]):
        for new in ({"fault": None}, {"trace": False}, {"num": 1}):
            o = dict(op, **new)
            if o != op:
                yield dict(plan, ops=plan["ops"][:i] + [o] + plan["ops"][i + 1 :])
