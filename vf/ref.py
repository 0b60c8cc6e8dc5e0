"""Independent reference mathematics, written from the definitions, and
comparison helpers that raise Violation."""

import numpy as np

from vf.core import Violation


# --- building the object under test ------------------------------------
def triangles_of(case):
    kind = case.get("tri_kind", "list")
    return [
        tuple(t) if kind == "tuple" else list(t) for t in case["tris"]
    ]


def build(case, node_features=None, edge_features=None):
    from pytspl.simplicial_complex import SimplicialComplex

    return SimplicialComplex(
        nodes=list(range(case["n"])),
        edges=[tuple(e) for e in case["edges"]],
        triangles=triangles_of(case),
        node_features=node_features if node_features is not None else {},
        edge_features=edge_features if edge_features is not None else {},
    )


def vec(values):
    """The array a user would pass: of integers if all values are integers,
    else of floats."""
    values = list(values)
    if values and all(type(v) is int for v in values):
        return np.array(values)
    return np.array(values, dtype=float)


def narrow_ints(x):
    """As the narrowest signed integers with headroom for the sum of the
    squares."""
    x = np.asarray(x)
    for t in (np.int8, np.int16, np.int32):
        if np.sum(x.astype(float) ** 2) <= np.iinfo(t).max:
            return x.astype(t)
    return x.astype(np.int64)


class Unit:
    """How the flows of a case are handed to the code under test: times a
    power of two (exact in binary arithmetic, integers stay integers), and
    as an array of narrow integers, a read-only array or a strided view.
    Integers keep headroom for the sum of their squares in their own type,
    so that a norm computed in integers is right too; wide flows, for the
    operators that are linear, keep it only where the type is narrow."""

    def __init__(self, case, wide=False):
        self.u = 2.0 ** case.get("pow", 0)
        if self.u > 1 and not wide:
            whole = [
                case[k]
                for k in ("flow", "flow2")
                if np.asarray(case.get(k, [0.5])).dtype.kind == "i"
            ]
            self.u = 2.0**16 if whole else self.u
        self.form = case.get("form", "")

    def up(self, f, narrow=True):
        x = np.asarray(f)
        if self.u > 1 and x.dtype.kind == "i":
            x = x.astype(np.int64) * int(self.u)
        elif self.u != 1:
            x = x.astype(float) * self.u
        if self.form == "narrow" and narrow and x.dtype.kind == "i":
            return narrow_ints(x)
        if self.form == "strided":
            y = np.full((len(x), 2), 77, dtype=x.dtype)
            y[:, 1] = x
            return y[:, 1]
        if self.form == "readonly":
            x = x.copy()
            x.flags.writeable = False
        return x

    def down(self, x):
        return x if self.u == 1 else arr(x) / self.u


# --- reference matrices -------------------------------------------------
def b1(case):
    m = np.zeros((case["n"], len(case["edges"])))
    for j, (u, v) in enumerate(case["edges"]):
        for i in range(case["n"]):
            m[i, j] = (i == v) * 1.0 - (i == u) * 1.0
    return m


def b2(case):
    """Boundary of [a, b, c] = [b, c] - [a, c] + [a, b]; an edge stored the
    other way round counts with the opposite sign."""
    pos = {tuple(e): j for j, e in enumerate(case["edges"])}
    m = np.zeros((len(case["edges"]), len(case["tris"])))
    for t, (a, b, c) in enumerate(case["tris"]):
        for s, (u, v) in ((1, (b, c)), (-1, (a, c)), (1, (a, b))):
            if (u, v) in pos:
                m[pos[(u, v)], t] = s
            else:
                m[pos[(v, u)], t] = -s
    return m


def laps(case):
    d1, d2 = b1(case), b2(case)
    low, up = d1.T @ d1, d2 @ d2.T
    return low + up, low, up


def proj(m):
    """Orthogonal projector onto the column space, by SVD."""
    if m.size == 0 or not np.any(m):
        return np.zeros((m.shape[0], m.shape[0]))
    u, s, _ = np.linalg.svd(m, full_matrices=False)
    r = int(np.sum(s > 1e-9 * max(1.0, s[0])))
    return u[:, :r] @ u[:, :r].T


def projectors(case):
    """(gradient, curl, harmonic) orthogonal projectors."""
    d1, d2 = b1(case), b2(case)
    pg, pc = proj(d1.T), proj(d2)
    return pg, pc, np.eye(len(case["edges"])) - pg - pc


def rank(m):
    if m.size == 0:
        return 0
    return int(np.linalg.matrix_rank(m))


def components(case):
    """Number of connected components (union-find)."""
    par = list(range(case["n"]))

    def find(x):
        while par[x] != x:
            par[x] = par[par[x]]
            x = par[x]
        return x

    for u, v in case["edges"]:
        par[find(u)] = find(v)
    return len({find(i) for i in range(case["n"])})


# --- comparisons ---------------------------------------------------------
def arr(x, what="value"):
    """Dense float array of whatever matrix type the code returned."""
    if hasattr(x, "toarray"):
        x = x.toarray()
    if hasattr(x, "detach"):
        x = x.detach().cpu().numpy()
    try:
        return np.asarray(x, dtype=float)
    except Exception as e:
        raise Violation(f"{what}: not numeric ({e}): {x!r}"[:300])


def same(got, want, what, tol=1e-9, scale=None):
    g, w = arr(got, what), arr(want, what)
    if g.shape != w.shape:
        raise Violation(f"{what}: shape {g.shape}, expected {w.shape}")
    if g.size == 0:
        return
    if scale is None:
        scale = max(1.0, float(np.max(np.abs(w))))
    if not np.all(np.isfinite(g)):
        raise Violation(f"{what}: not finite: {g.tolist()}"[:600])
    d = float(np.max(np.abs(g - w)))
    if d > tol * scale:
        raise Violation(
            f"{what}: differs by {d:.3g} (allowed {tol * scale:.3g}); "
            f"got {np.round(g, 6).tolist()} expected "
            f"{np.round(w, 6).tolist()}"[:900]
        )


def exact(got, want, what):
    if got != want:
        raise Violation(f"{what}: got {got!r}, expected {want!r}"[:900])


def need(cond, what):
    if not cond:
        raise Violation(what[:900])


def raises(kind, fn, what):
    try:
        r = fn()
    except kind:
        return
    except Exception as e:
        raise Violation(
            f"{what}: raised {type(e).__name__} ({e}), expected "
            f"{getattr(kind, '__name__', kind)}"
        )
    raise Violation(
        f"{what}: accepted (returned {type(r).__name__}), expected "
        f"{getattr(kind, '__name__', kind)}"
    )


def nrmse(est, true):
    est, true = np.asarray(est, float), np.asarray(true, float)
    return float(
        np.sqrt(np.sum((est - true) ** 2)) / np.sqrt(np.sum(true**2))
    )


def joint_cut(spectra):
    """A tolerance that counts some positive eigenvalues as zero, or None.

    It lies between two eigenvalues, and leaves the kept ones of every
    spectrum further apart than itself, so that none are merged.
    """
    every = sorted({round(float(x), 9) for p in spectra for x in p if x > 1e-9})
    for i, a in enumerate(every):
        b = every[i + 1] if i + 1 < len(every) else np.inf
        tol = a + (0.05 if b == np.inf else min(0.05, (b - a) / 2))
        if tol - a < 0.01:
            continue
        if all(
            np.all(np.diff([0.0, *(x for x in p if x > tol)]) > tol + 0.005)
            for p in spectra
        ):
            return float(tol)
    return None


def cut_spectrum(pts, tol):
    """(tolerance, distinct eigenvalues under it, whether they are all)."""
    if tol == "cut":
        tol = joint_cut([pts])
    if tol is None or not np.any((pts > 1e-9) & (pts <= tol)):
        return tol, pts, True
    return tol, np.concatenate([[0.0], pts[pts > tol]]), False


# --- polynomial filters -----------------------------------------------------
def cheb_vander(x, L, hi):
    return np.polynomial.chebyshev.chebvander(
        2 * np.asarray(x, float) / hi - 1 if hi > 0 else np.asarray(x, float),
        L - 1,
    )


def poly_fit(points, targets, L, at):
    """Values, at `at`, of the polynomial with L coefficients that fits the
    targets on the points best in the least-squares sense."""
    hi = float(max(np.max(points, initial=0), np.max(at, initial=0), 1e-300))
    h = np.linalg.lstsq(
        cheb_vander(points, L, hi), np.asarray(targets, float), rcond=None
    )[0]
    return cheb_vander(at, L, hi) @ h


def vander_cond(points, L):
    """Condition number of the monomial system over its numerical rank."""
    v = np.vander(np.asarray(points, float), L, increasing=True)
    s = np.linalg.svd(v, compute_uv=False)
    s = s[s > s[0] * 1e-14 * max(v.shape)]
    return float(s[0] / s[-1])


def of_matrix(P, fn):
    """fn applied to the spectrum of a symmetric matrix."""
    w, u = np.linalg.eigh(P)
    w = np.where(np.abs(w) < 1e-10 * max(1.0, w[-1]), 0.0, w)
    return u @ np.diag(fn(w)) @ u.T


def spectrum(P):
    w = np.linalg.eigvalsh(P)
    return np.where(np.abs(w) < 1e-10 * max(1.0, np.max(np.abs(w))), 0.0, w)


def merge(vals, tol=1e-7):
    """Distinct values up to rounding, and the smallest gap among them."""
    out = []
    for v in np.sort(np.asarray(vals, float)):
        if not out or v - out[-1] > tol:
            out.append(float(v))
    gap = min((b - a for a, b in zip(out, out[1:])), default=np.inf)
    return np.array(out), gap


def operator(case, name):
    full, low, up = laps(case)
    return {"L1": full, "L1L": low, "L1U": up}[name]


COMPONENTS = ("gradient", "curl", "harmonic")


def component_mask(case, component):
    """0/1 coefficients of a component along the ascending spectrum of the
    Hodge Laplacian; None if a gradient and a curl frequency coincide."""
    full, low, up = laps(case)
    wg = spectrum(low)
    wc = spectrum(up)
    wg, wc = wg[wg > 1e-9], wc[wc > 1e-9]
    nh = len(case["edges"]) - len(wg) - len(wc)
    if len(wg) and len(wc):
        if np.min(np.abs(wg[:, None] - wc[None, :])) < 1e-6:
            return None
    vals = [(0.0, "harmonic")] * nh
    vals += [(float(w), "gradient") for w in wg]
    vals += [(float(w), "curl") for w in wc]
    vals.sort(key=lambda t: t[0])
    return np.array([1.0 if c == component else 0.0 for _, c in vals])


def history_floats(history, keys, what):
    for k in keys:
        v = history.get(k)
        need(
            isinstance(v, np.ndarray) and v.dtype == float,
            f"{what}: history entry {k!r} is not a float array: {v!r}",
        )
