import importlib
import os
import pkgutil

_loaded = False


def load():
    global _loaded
    if _loaded:
        return
    _loaded = True
    for m in sorted(x.name for x in pkgutil.iter_modules([os.path.dirname(__file__)])):
        importlib.import_module(f"{__name__}.{m}")
