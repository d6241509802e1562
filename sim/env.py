"""Process environment of the simulator. Import before anything else."""
import os
import sys

ENV = {
    "HOME": os.environ.get("HOME", "/root"),
    "PYTHONDONTWRITEBYTECODE": "1",
    "JAX_PLATFORMS": "cpu",
    "MPLBACKEND": "Agg",
    "OMP_NUM_THREADS": "1",
    "OPENBLAS_NUM_THREADS": "1",
    "MKL_NUM_THREADS": "1",
    "XLA_FLAGS": "--xla_cpu_multi_thread_eigen=false intra_op_parallelism_threads=1",
    "TF_CPP_MIN_LOG_LEVEL": "3",
}
REPO = os.environ.get("GPCM_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PYTHON = "/opt/venv/bin/python"


def child_env(hashseed="0", **extra):
    e = dict(os.environ)
    e.update(ENV)
    e["PYTHONHASHSEED"] = str(hashseed)
    e["PYTHONPATH"] = VERIF + os.pathsep + REPO
    e.update(extra)
    return e


def setup():
    """In a worker: make sure that gpcm comes from the tree under test."""
    os.environ.update(ENV)
    sys.dont_write_bytecode = True
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    import warnings

    warnings.filterwarnings("ignore")
    import logging

    logging.disable(logging.WARNING)
    import gpcm

    where = os.path.realpath(os.path.dirname(os.path.dirname(gpcm.__file__)))
    if where != os.path.realpath(REPO):
        raise RuntimeError(f"gpcm imported from {where}, not {REPO}")
