"""Master: distributes seeds over workers, minimises failures, writes evidence."""
import json
import os
import queue
import shutil
import subprocess
import sys
import tempfile
import threading
import time
from collections import Counter

from . import env
from .core import derive

NPROC = int(os.environ.get("SIM_WORKERS", "8"))


class Worker:
    def __init__(self, prop, base, hashseed="0"):
        self.prop, self.base, self.hashseed = prop, base, hashseed
        self.history = []
        self.start()

    def start(self):
        self.p = subprocess.Popen(
            [env.PYTHON, "-m", "sim.worker", self.prop, self.base],
            stdin=subprocess.PIPE,
            stdout=subprocess.PIPE,
            env=env.child_env(self.hashseed),
            cwd=self.base,
            text=True,
            start_new_session=True,
        )
        self.history = []
        self.q = queue.Queue()
        threading.Thread(target=self._pump, args=(self.p, self.q), daemon=True).start()
        self.ready = False

    @staticmethod
    def _pump(p, q):
        for line in p.stdout:
            q.put(line)
        q.put(None)

    def _get(self, timeout):
        try:
            line = self.q.get(timeout=timeout)
        except queue.Empty:
            return "timeout"
        return json.loads(line) if line is not None else None

    def call(self, req, timeout):
        """Returns a result, or a result with status `hang` or `died`."""
        if self.p.poll() is not None:
            self.start()
        if not self.ready:
            r = self._get(240)
            if not isinstance(r, dict):
                self.kill()
                return {"status": "died", "kind": "start", "msg": "worker did not start"}
            self.ready = True
        self.history.append(req)
        try:
            self.p.stdin.write(json.dumps(req) + "\n")
            self.p.stdin.flush()
        except BrokenPipeError:
            r = None
        else:
            r = self._get(timeout)
        if r == "timeout":
            self.kill()
            return {"status": "hang", "kind": "hang", "msg": f"no result in {timeout} s"}
        if r is None:
            rc = self.p.wait()
            self.kill()
            return {"status": "died", "kind": "died", "msg": f"exit code {rc}"}
        return r

    def kill(self):
        try:
            os.killpg(self.p.pid, 9)
        except (ProcessLookupError, PermissionError):
            pass
        self.p.wait()


def plan_size(plan):
    return len(json.dumps(plan))


def candidates(mod_simplify, plan):
    """Simpler plans, most aggressive first."""
    ops = plan.get("ops")
    if isinstance(ops, list) and len(ops) > 1:
        n = len(ops)
        size = n // 2
        while size >= 1:
            for i in range(0, n, size):
                yield dict(plan, ops=ops[:i] + ops[i + size :])
            size //= 2
    for key in ("schedule",):
        s = plan.get(key)
        if isinstance(s, list) and len(s) > 1:
            n = len(s)
            size = max(n // 2, 1)
            while size >= 1:
                for i in range(0, n, size):
                    yield dict(plan, **{key: s[:i] + s[i + size :]})
                size //= 2
    if mod_simplify:
        yield from mod_simplify(plan)
    if plan.get("clock", "steady") != "steady":
        yield dict(plan, clock="steady")


def minimise(workers, prop, plan, kind, simplify, budget, timeout):
    """Greedy minimisation preserving the class of the violation."""
    t0 = time.time()
    tried = 0
    best = plan
    progress = True
    while progress and time.time() - t0 < budget:
        progress = False
        cs = candidates(simplify, best)
        while time.time() - t0 < budget:
            batch = []
            for c in cs:
                batch.append(c)
                if len(batch) == len(workers):
                    break
            if not batch:
                break
            res = [None] * len(batch)

            def go(i):
                res[i] = workers[i].call({"id": i, "plan": batch[i]}, timeout)

            th = [threading.Thread(target=go, args=(i,)) for i in range(len(batch))]
            [x.start() for x in th]
            [x.join() for x in th]
            tried += len(batch)
            hit = [
                i
                for i, r in enumerate(res)
                if r["status"] == "violation" and r["kind"] == kind
            ]
            if hit:
                best = batch[hit[0]]
                progress = True
                break
    return best, tried


def fresh_execute(prop, plans, base, timeout, want_log=False, hashseed="0"):
    """Execute plans one after the other in a fresh process; the last one counts."""
    w = Worker(prop, base, hashseed)
    try:
        r = None
        for p in plans:
            req = {"id": 0, "want_log": want_log, **p}
            r = w.call(req, timeout)
        return r
    finally:
        w.kill()


class Check:
    def __init__(self, prop, tier, seed):
        sys.path.insert(0, env.VERIF)
        self.prop, self.tier, self.seed = prop, tier, seed
        from . import registry

        self.meta = registry.META[prop]
        self.runs = self.meta["runs"][tier]
        self.deadline = self.meta["deadline"][tier]
        self.timeout = self.meta.get("timeout", 150)
        self.known = [
            k
            for k in json.load(open(os.path.join(env.VERIF, "known_findings.json")))[
                "findings"
            ]
            if k["property"] == prop
        ]

    def simplify(self):
        from . import registry

        return registry.SIMPLIFY.get(self.prop)

    def is_known(self, r):
        for k in self.known:
            if r["kind"] == k["kind"]:
                return k
        return None

    def run(self):
        base = tempfile.mkdtemp(prefix="gpcmsim-")
        self.base = base
        try:
            return self._run(base)
        finally:
            shutil.rmtree(base, ignore_errors=True)

    def _run(self, base):
        t0 = time.time()
        stop = threading.Event()
        lock = threading.Lock()
        lanes = [[] for _ in range(8)]
        for i in reversed(range(self.runs)):
            lanes[derive(self.seed, self.prop, i) % 8].append(i)

        def next_run(k):
            """A run of the worker's own lane, or else of the fullest one."""
            own = lanes[k % 8]
            if not own:
                own = max(lanes, key=len)
            return own.pop() if own else None

        results, bad, harness = [], [], []
        known_hits = Counter()
        workers = [Worker(self.prop, base) for _ in range(NPROC)]

        def seed_of(i):
            return derive(self.seed, self.prop, i)

        def loop(k, w):
            while not stop.is_set():
                if time.time() - t0 > self.deadline:
                    return
                with lock:
                    i = next_run(k)
                if i is None:
                    return
                req = {"id": i, "seed": seed_of(i), "tier": self.tier}
                r = w.call(req, self.timeout)
                with lock:
                    r.setdefault("id", i)
                    if r["status"] == "ok":
                        results.append(r)
                    elif r["status"] == "violation":
                        k = self.is_known(r)
                        if k:
                            known_hits[k["id"]] += 1
                            results.append(r)
                            continue
                        bad.append((i, req, r, list(w.history)))
                        stop.set()
                    elif r["status"] in ("hang", "died"):
                        bad.append((i, req, r, list(w.history) or [req]))
                        stop.set()
                    else:
                        harness.append((i, r))
                        stop.set()

        th = [threading.Thread(target=loop, args=kw) for kw in enumerate(workers)]
        [x.start() for x in th]
        [x.join() for x in th]
        wall = time.time() - t0

        rc = 0
        replay = None
        if bad:
            bad.sort(key=lambda b: b[0])
            i, req, r, hist = bad[0]
            replay, r = self.report(base, workers, i, req, r, hist)
            if replay is None:
                harness.append((i, r))
            else:
                rc = 1
        for w in workers:
            w.kill()
        # Known findings: show each that still fails.
        for k in self.known:
            if rc:
                break
            r = fresh_execute(self.prop, [{"plan": k["plan"]}], base, self.timeout)
            if r["status"] == "violation" and r["kind"] == k["kind"]:
                print(f"KNOWN-FINDING: property={self.prop} {k['what']}")
                known_hits[k["id"]] += 1
        if harness and rc == 0:
            print(f"HARNESS-ERROR property={self.prop} run={harness[0][0]}")
            print(harness[0][1].get("msg", "")[-3000:])
            rc = 3
        if rc == 0 and len(results) < min(self.runs, self.meta.get("min_runs", 8)):
            print(f"HARNESS-ERROR property={self.prop} only {len(results)} runs finished")
            rc = 3
        self.evidence(results, wall, 1 if rc == 1 else 0, known_hits, replay)
        n = len(results)
        print(
            f"{self.prop} {self.tier}: {n} runs, {sum(r['checks'] for r in results)} oracle"
            f" checks, {wall:.0f} s, exit {rc}"
        )
        return rc

    def report(self, base, workers, i, req, r, hist):
        """Confirm, minimise and store a violation."""
        kind = r["kind"]
        d = os.path.join(env.VERIF, "evidence", "replays")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, f"{self.prop}-{req['seed']}.json")
        seedreq = {"seed": req["seed"], "tier": self.tier}
        note = ""
        prefix = []
        if r["status"] in ("hang", "died"):
            r2 = fresh_execute(self.prop, [seedreq], base, self.timeout)
            if r2["status"] not in ("hang", "died", "violation"):
                return None, {"msg": f"worker {r['kind']} ({r['msg']}), not repeatable"}
            last = [seedreq]
            kind = r2["kind"]
            r = r2
            if r2["status"] == "violation":
                last = [{"plan": r2["plan"]}]
        else:
            plan = r["plan"]
            r2 = fresh_execute(self.prop, [{"plan": plan}], base, self.timeout)
            if r2["status"] == "violation":
                kind = r2["kind"]
                plan, tried = minimise(
                    workers, self.prop, plan, kind, self.simplify(),
                    self.meta.get("min_budget", 45), self.timeout,
                )
                r2 = fresh_execute(self.prop, [{"plan": plan}], base, self.timeout)
                if not (r2["status"] == "violation" and r2["kind"] == kind):
                    plan = r["plan"]
                    r2 = r
                    note = "minimised plan did not repeat in a fresh process; original kept"
                last = [{"plan": plan}]
                r = r2
            else:
                # State carried over from earlier runs of the same process matters.
                prefix = [
                    {k: v for k, v in q.items() if k in ("seed", "tier", "plan")}
                    for q in hist[:-1]
                ]
                r2 = fresh_execute(self.prop, prefix + [{"plan": plan}], base, self.timeout)
                ok = r2["status"] == "violation"
                note = (
                    "needs earlier runs in the same process"
                    if ok
                    else "did not repeat in a fresh process"
                )
                t0 = time.time()
                n = max(len(prefix) // 2, 1)
                while ok and prefix and time.time() - t0 < 90:
                    cut = prefix[n:]
                    r3 = fresh_execute(self.prop, cut + [{"plan": plan}], base, self.timeout)
                    if r3["status"] == "violation" and r3["kind"] == r2["kind"]:
                        prefix = cut
                    elif n == 1:
                        break
                    n = max(min(n, len(prefix)) // 2, 1)
                last = [{"plan": plan}]
                r = r2 if ok else r
                kind = r["kind"]
        json.dump(
            {
                "property": self.prop,
                "kind": kind,
                "message": r.get("msg", ""),
                "run_seed": req["seed"],
                "verif_seed": self.seed,
                "tier": self.tier,
                "note": note,
                "timeout": self.timeout,
                "execute": prefix + last,
                "digest": r.get("digest"),
                "trace": r.get("log"),
            },
            open(path, "w"),
            indent=1,
        )
        print(f"violation kind: {kind}")
        print(f"violation: {r.get('msg', '')[:1500]}")
        print(f"seed: {req['seed']} {note}")
        print(f"VIOLATION property={self.prop} replay={path}")
        return path, r

    def evidence(self, results, wall, violations, known, replay):
        faults, probes = Counter(), Counter()
        for r in results:
            faults.update(r["faults"])
            probes.update(r["probes"])
        nontrivial = {r["digest"] for r in results if r["checks"] > 0 and r["events"] > 2}
        samples = [
            {"plan": r["plan"], "events": r["log"][:12], "digest": r["digest"]}
            for r in sorted(results, key=lambda r: r["id"])[:2]
        ]
        n = len(results)
        e = {
            "property": self.prop,
            "tier": self.tier,
            "seed": self.seed,
            "level": self.meta["level"],
            "coverage": {
                "evaluations": n,
                "distinct_nontrivial": len(nontrivial),
                "rule": self.meta["rule"],
                "samples": samples,
                "oracle_checks": sum(r["checks"] for r in results),
                "events_recorded": sum(r["events"] for r in results),
                "runs_per_hour": round(n / max(wall, 1e-9) * 3600),
                "seeds_per_hour": round(n / max(wall, 1e-9) * 3600),
                "simulated_time_s": round(sum(r["sim_time"] for r in results), 3),
                "faults_injected": dict(faults),
                "probes_reached": dict(probes),
                "distinct_measure": "distinct digests of the complete event log of a run "
                "(operations, fault points, schedule switches and hashes of results)",
                "components": self.meta["components"],
                "workers": NPROC,
                "runs_planned": self.runs,
                "known_findings_hit": dict(known),
                "replay": replay,
            },
            "assumptions": self.meta["assumptions"],
            "wall_s": round(wall, 2),
            "violations": violations,
        }
        os.makedirs(os.path.join(env.VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(env.VERIF, "evidence", f"{self.prop}.json"), "w") as f:
            json.dump(e, f, indent=1)


def replay(path):
    spec = json.load(open(path))
    base = tempfile.mkdtemp(prefix="gpcmsim-")
    try:
        r = fresh_execute(
            spec["property"], spec["execute"], base, spec.get("timeout", 150), True
        )
    finally:
        shutil.rmtree(base, ignore_errors=True)
    print(f"status: {r['status']} kind: {r['kind']}")
    print(r.get("msg", "")[:3000])
    if r["status"] in ("violation", "hang", "died"):
        if r.get("digest") and spec.get("digest") and r["digest"] != spec["digest"]:
            print("note: the event log differs from the recorded one")
        for s in r.get("log") or []:
            print("  ", s)
        print(f"VIOLATION property={spec['property']} replay={path}")
        return 1
    return 3 if r["status"] == "harness" else 0


def setup():
    """Nothing to build: check that a worker starts on the tree under test."""
    base = tempfile.mkdtemp(prefix="gpcmsim-")
    try:
        w = Worker("C02", base)
        r = w._get(240)
        w.kill()
    finally:
        shutil.rmtree(base, ignore_errors=True)
    ok = isinstance(r, dict) and r.get("ready")
    print("setup ok" if ok else "worker did not start")
    return 0 if ok else 3
