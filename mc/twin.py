"""Load a second copy of pystrata in which numba cannot be imported."""

import importlib
import importlib.abc
import sys


class _Block(importlib.abc.MetaPathFinder):
    def find_spec(self, name, path=None, target=None):
        if name == "numba" or name.startswith("numba."):
            raise ImportError("numba is blocked")
        return None


def load_without_numba():
    """numba is hidden only while the pystrata modules are imported; the third-party
    packages that need it (pyrvt, pykooh) are already loaded and keep theirs."""
    import pystrata  # noqa: F401  (loads everything else first)

    saved = {k: v for k, v in sys.modules.items() if k == "pystrata" or k.startswith("pystrata.")}
    hidden = {k: v for k, v in sys.modules.items() if k == "numba" or k.startswith("numba.")}
    for k in list(saved) + list(hidden):
        del sys.modules[k]
    blk = _Block()
    sys.meta_path.insert(0, blk)
    try:
        twin = importlib.import_module("pystrata")
        for sub in ("motion", "site", "propagation", "output", "tools", "variation"):
            importlib.import_module(f"pystrata.{sub}")
    finally:
        sys.meta_path.remove(blk)
        for k in [k for k in sys.modules if k == "pystrata" or k.startswith("pystrata.")]:
            del sys.modules[k]
        sys.modules.update(hidden)
        sys.modules.update(saved)
    return twin
