"""Stand-in for the `chebpy` package, which is not installed here: Chebyshev
interpolation on n points of the second kind, with the two features the code
under test uses (coefficients of the first piece, evaluation)."""

import sys
import types

import numpy as np


def coefficients(f, lo, hi, n):
    """Coefficients of the polynomial of degree n-1 that interpolates f on
    the n Chebyshev points of [lo, hi]."""
    if n == 1:
        x = np.zeros(1)
    else:
        x = -np.cos(np.pi * np.arange(n) / (n - 1))
    y = np.asarray(f(lo + (hi - lo) * (x + 1) / 2), dtype=float)
    return np.linalg.solve(np.polynomial.chebyshev.chebvander(x, n - 1), y)


class _Piece:
    def __init__(self, coeffs):
        self.coeffs = coeffs


class _Fun:
    def __init__(self, f, domain, n):
        self.domain = [float(domain[0]), float(domain[-1])]
        self.n = int(n)
        self.funs = [
            _Piece(coefficients(f, self.domain[0], self.domain[1], self.n))
        ]

    def __call__(self, x):
        lo, hi = self.domain
        t = 2 * (np.asarray(x, dtype=float) - lo) / (hi - lo) - 1
        return np.polynomial.chebyshev.chebval(t, self.funs[0].coeffs)


def chebfun(f=None, domain=(-1, 1), n=None):
    return _Fun(f, domain, n)


def install():
    mod = types.ModuleType("chebpy")
    mod.chebfun = chebfun
    sys.modules["chebpy"] = mod
