"""The seam to the random number generator: enumerated answers instead of random ones.

While installed, the functions of ``numpy.random`` that the library calls answer with choices of the explorer.  A library
that draws its numbers in another way does not call them; ``calls`` then stays empty, and only invariants are checked.
"""

import contextlib

import numpy as np


class Seam:
    def __init__(self):
        self.calls = []


@contextlib.contextmanager
def patched(**functions):
    old = {k: getattr(np.random, k) for k in functions}
    try:
        for k, f in functions.items():
            setattr(np.random, k, f)
        yield
    finally:
        for k, f in old.items():
            setattr(np.random, k, f)
        np.random.seed(1)
