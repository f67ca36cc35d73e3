"""Duck-typed materials (n, k constant or given as functions of wavelength in m) with a stable name."""
import numpy as np


class Mat:
    def __init__(self, n, k=0.0, name=None):
        self._n, self._k = n, k
        self.name = name or "m_%r_%r" % (n if not callable(n) else "f", k if not callable(k) else "f")

    def _ev(self, f, wl):
        wl = np.asarray(wl, dtype=float)
        return np.asarray(f(wl), dtype=float) if callable(f) else np.full(wl.shape, float(f)) if wl.ndim else float(f)

    def n(self, wl=None):
        return self._ev(self._n, wl)

    def k(self, wl=None):
        return self._ev(self._k, wl)

    def alpha(self, wl=None):
        return 4 * np.pi * self.k(wl) / np.asarray(wl, dtype=float)

    def __str__(self):
        return self.name

    def __repr__(self):
        return self.name


def quiet():
    import logging
    logging.disable(logging.CRITICAL)
    import numpy
    numpy.seterr(all="ignore")
