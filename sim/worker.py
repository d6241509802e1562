"""Worker process: executes simulated runs on request (one JSON object per line)."""
import importlib
import json
import os
import shutil
import sys
import tempfile
import traceback

from . import env

env.setup()

import faulthandler  # noqa: E402

faulthandler.enable()

from . import seams  # noqa: E402
from .fresh import fresh  # noqa: E402
from .core import Gen, HarnessError, Run, SimCrash, Violation, derive  # noqa: E402


def load_prop(prop):
    return importlib.import_module(f"sim.props.{prop.lower()}")


def make_plan(mod, prop, seed, tier):
    g = Gen(derive("plan", prop, seed))
    g.lane, g.sub = seed % 8, seed // 8
    plan = mod.gen(g, tier)
    plan["seed"] = seed
    return plan


def execute(mod, prop, plan, base):
    """One simulated execution, a pure function of the plan and the code."""
    import wbml.out

    scratch = tempfile.mkdtemp(dir=base)
    run = Run(prop, plan, scratch)
    seams.seed_globals(derive("globals", plan["seed"]))
    clock = seams.Clock(derive("clock", plan["seed"]), plan.get("clock", "steady"))
    seams.set_clock(clock)
    seams.set_jit(plan.get("jit", False))
    seams.sink.disarm()
    wbml.out.indent_level = 0
    out, sys.stdout = sys.stdout, seams.sink
    status, kind, msg = "ok", "", ""
    try:
        if getattr(mod, "FRESH", False):
            # Nothing an earlier run left at module or class level is seen by this one.
            with fresh():
                mod.execute(run, plan)
        else:
            mod.execute(run, plan)
    except Violation as v:
        status, kind, msg = "violation", v.kind, v.msg
    except HarnessError as e:
        status, kind, msg = "harness", "harness", str(e)
    except (KeyboardInterrupt, SimCrash) as e:
        status, kind = "harness", "stray"
        msg = "".join(traceback.format_exception(e))[-1500:]
    except Exception as e:
        # The code under test handed the oracle something it cannot digest.
        status, kind = "violation", "malformed:" + type(e).__name__
        msg = "".join(traceback.format_exception(e))[-1500:]
    finally:
        sys.stdout = out
        seams.real_clock()
        seams._deactivate()
        seams.set_jit(True)
        shutil.rmtree(scratch, ignore_errors=True)
    if clock.jumps:
        run.faults["clock_jump"] += clock.jumps
    return {
        "status": status,
        "kind": kind,
        "msg": msg,
        "digest": run.digest,
        "events": run.n_events,
        "log": run.events if plan.get("want_log") else run.events[:12],
        "faults": dict(run.faults),
        "probes": dict(run.probes),
        "checks": run.checks,
        "sim_time": clock.covered,
        "plan": plan,
        "extra": getattr(run, "extra", None),
    }


def main():
    prop, base = sys.argv[1], sys.argv[2]
    proto = os.fdopen(os.dup(1), "w", buffering=1)
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    if os.environ.get("SIM_STDERR") != "1":
        os.dup2(devnull, 2)
    sys.stdout = seams.sink
    mod = load_prop(prop)
    if hasattr(mod, "prepare"):
        mod.prepare()
    proto.write(json.dumps({"ready": True}) + "\n")
    for line in sys.stdin:
        req = json.loads(line)
        try:
            if "plan" in req:
                plan = req["plan"]
            else:
                plan = make_plan(mod, prop, req["seed"], req["tier"])
            plan = json.loads(json.dumps(plan))
            if req.get("want_log"):
                plan["want_log"] = True
            res = execute(mod, prop, plan, base)
        except Exception as e:
            res = {
                "status": "harness",
                "kind": "harness",
                "msg": "".join(traceback.format_exception(e))[-2000:],
            }
        res["id"] = req["id"]
        proto.write(json.dumps(res) + "\n")


if __name__ == "__main__":
    main()
