import importlib


class _Meta:
    def __getitem__(self, prop):
        return importlib.import_module(f"sim.props.{prop.lower()}").META


class _Simplify:
    def get(self, prop):
        return getattr(importlib.import_module(f"sim.props.{prop.lower()}"), "simplify", None)


META = _Meta()
SIMPLIFY = _Simplify()
PROPS = [f"C{i:02d}" for i in range(1, 19)]
