"""A second, fresh import of the tree under test within the same process: nothing that
was cached at module or class level by earlier use can be seen by it."""
import contextlib
import sys

from . import seams


@contextlib.contextmanager
def fresh():
    old = {k: v for k, v in sys.modules.items() if k == "gpcm" or k.startswith("gpcm.")}
    codes = seams._codes
    for k in old:
        del sys.modules[k]
    seams._codes = None
    try:
        import gpcm  # noqa

        yield
    finally:
        for k in [k for k in sys.modules if k == "gpcm" or k.startswith("gpcm.")]:
            del sys.modules[k]
        sys.modules.update(old)
        seams._codes = codes
