"""One seed is one exactly repeatable execution: run the same seeds in separate processes
under different circumstances and compare complete event logs."""
import shutil
import tempfile
import threading

from . import env, registry
from .core import derive
from .runner import Worker


def observe(prop, seeds, base, hashseed, out, chunks):
    """Digests of the given runs; `chunks` processes share them."""

    def go(part):
        w = Worker(prop, base, hashseed)
        try:
            for s in part:
                r = w.call({"id": 0, "seed": s, "tier": "quick"}, 240)
                out[s] = (r.get("status"), r.get("kind"), r.get("digest"), r.get("events"), r.get("faults"))
        finally:
            w.kill()

    th = [threading.Thread(target=go, args=(seeds[i::chunks],)) for i in range(chunks)]
    [t.start() for t in th]
    [t.join() for t in th]


def main(args):
    n = int(args[0]) if args else 6
    props = [a.upper() for a in args[1:]] or registry.PROPS
    bad = 0
    for prop in props:
        base = tempfile.mkdtemp(prefix="gpcm-sim-")
        try:
            seeds = [derive("determinism", prop, i) for i in range(n)]
            # The same seeds: once in order in one process, once in reverse order spread
            # over four processes (so with other runs before them), once under another
            # hash seed.
            a, b, c = {}, {}, {}
            ts = [threading.Thread(target=observe, args=x) for x in (
                (prop, seeds, base, "0", a, 2), (prop, seeds[::-1], base, "0", b, 4), (prop, seeds, base, "4242", c, 2))]
            [t.start() for t in ts]
            [t.join() for t in ts]
            d = [s for s in seeds if not a[s] == b[s] == c[s]]
            bad += len(d)
            print(f"{prop}: {n} seeds, three executions each, {len(d)} differ", flush=True)
            for s in d[:5]:
                print("  ", s, a[s], b[s], c[s])
        finally:
            shutil.rmtree(base, ignore_errors=True)
    return 1 if bad else 0
