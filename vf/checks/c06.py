"""C06 eigendecompositions and embeddings."""

import numpy as np

from vf import gen, ref, st
from vf.core import Clause, Fixed, Skip

META = {
    "title": "Eigenpairs diagonalise the Laplacians and split the flow space",
    "statement": (
        "For every symmetric Laplacian the eigendecomposition returns "
        "orthonormal eigenvectors and ascending eigenvalues that reproduce "
        "the matrix, with eigenvalues smaller in magnitude than the given "
        "tolerance reported as exactly zero. The harmonic eigenpairs of a "
        "complex are those of the Hodge Laplacian with eigenvalue at most the "
        "tolerance, the gradient and curl eigenpairs those of the lower and "
        "upper edge Laplacian above it; where the tolerance (by default "
        "0.001) separates zero from the other eigenvalues they span the three "
        "orthogonal Hodge subspaces, so their numbers add up to the number of "
        "edges. The simplicial embedding of a flow lists its "
        "(harmonic, curl, gradient) coordinates in these bases, preserving "
        "its energy and reproducing the three Hodge components, and an "
        "unknown component name is rejected with a ValueError."
    ).replace(". The simplicial embedding", "; the simplicial embedding"),
    "over": ["inputs"],
    "quantifier": "every complex, flow and tolerance",
    "why": (
        "the tests compare rounded eigenvectors of one network; completeness "
        "and orthogonality must hold for repeated eigenvalues, empty "
        "subspaces and every tolerance"
    ),
    "files": [
        "pytspl/decomposition/eigendecomposition.py",
        "pytspl/simplicial_complex/simplicial_complex.py",
    ],
    "mechanism": [
        {
            "name": "eigendecomposition and thresholds",
            "where": "decomposition.eigendecomposition",
        },
        {
            "name": "component selection and embeddings",
            "where": "SimplicialComplex.get_component_eigenpair, get_simplicial_embeddings",
        },
    ],
}
RULE = (
    "random complex and flow, tolerances placed inside gaps of the spectrum; "
    "oracle: definitions, reference projectors and numpy's dense solver; "
    "non-trivial = all three Hodge subspaces present or a repeated eigenvalue"
)
COMPS = ("harmonic", "curl", "gradient")


@st.composite
def cases(draw, big=True):
    c = draw(gen.complex_flow(min_nodes=2, max_nodes=8, big=big))
    c["pick"] = draw(st.integers(0, 40))
    return c


def check(case, rec):
    sc = ref.build(case)
    E = len(case["edges"])
    f = ref.vec(case["flow"])
    u = ref.Unit(case, wide=True)
    x = u.up(f)
    keep = x.copy()
    s = max(1.0, float(np.max(np.abs(f), initial=0)))
    L1, low, up = ref.laps(case)
    mats = {"harmonic": L1, "curl": up, "gradient": low}
    P = dict(zip(("gradient", "curl", "harmonic"), ref.projectors(case)))
    dims = {c: int(round(np.trace(P[c]))) for c in COMPS}
    w = np.linalg.eigvalsh(L1)
    if len(w) > 100 and np.any((w > 1e-9) & (w < 1.1e-3)):
        raise Skip("the default tolerance does not separate zero")
    if all(dims.values()):
        rec.label("all subspaces")
    if np.any(np.diff(w) < 1e-9):
        rec.label("repeated eigenvalue")
    rec.mark(all(dims.values()) or "repeated eigenvalue" in rec.labels)

    U = {}
    for c in COMPS:
        vec, val = sc.get_component_eigenpair(component=c)
        vec, val = ref.arr(vec), ref.arr(val)
        U[c] = vec
        ref.need(
            vec.shape == (E, dims[c]) and val.shape == (dims[c],),
            f"{c}: {vec.shape} vectors, {val.shape} values, the subspace has "
            f"dimension {dims[c]}",
        )
        ref.same(vec.T @ vec, np.eye(dims[c]), f"{c} orthonormality", tol=1e-8)
        ref.same(vec @ vec.T, P[c], f"span of the {c} eigenvectors", tol=1e-9)
        ref.same(
            mats[c] @ vec,
            vec * val,
            f"{c} eigenvector equation",
            tol=1e-8,
            scale=max(1.0, w[-1]),
        )
        if c == "harmonic":
            ref.need(np.all(np.abs(val) < 1e-8), f"harmonic values {val}")
        else:
            ref.need(np.all(val > 1e-3), f"{c} values {val}")
            ref.same(
                np.sort(val),
                np.linalg.eigvalsh(mats[c])[E - dims[c] :],
                f"{c} eigenvalues",
                tol=1e-8,
            )
        ref.need(np.all(np.diff(val) >= -1e-9), f"{c} values not ascending")
    ref.exact(sum(v.shape[1] for v in U.values()), E, "number of eigenpairs")

    emb = sc.get_simplicial_embeddings(x)
    ref.exact(len(emb), 3, "number of embeddings")
    total = 0.0
    for c, e in zip(COMPS, emb):
        e = ref.arr(u.down(e))
        ref.need(e.shape == (dims[c],), f"{c} embedding has shape {e.shape}")
        ref.same(U[c] @ e, P[c] @ f, f"{c} embedding", tol=1e-9, scale=s)
        total += float(e @ e)
    ref.need(
        abs(total - float(f @ f)) <= 1e-9 * max(1.0, float(f @ f)),
        f"embedding energy {total}, flow energy {float(f @ f)}",
    )

    # tolerance inside a gap of the spectrum
    for c in COMPS:
        ev = np.linalg.eigvalsh(mats[c])
        cuts = [
            (a + b) / 2 for a, b in zip(ev, ev[1:]) if b - a > 1e-2
        ] + [float(ev[-1]) + 1.0]
        tol = float(cuts[case["pick"] % len(cuts)])
        vec, val = sc.get_component_eigenpair(component=c, tolerance=tol)
        want = ev[ev <= tol] if c == "harmonic" else ev[ev > tol]
        ref.same(val, want, f"{c} eigenvalues with tolerance {tol}", tol=1e-8)
        vec = ref.arr(vec)
        ref.need(
            vec.shape == (E, len(want)),
            f"{c} with tolerance {tol}: vectors {vec.shape}",
        )
        ref.same(
            mats[c] @ vec,
            vec * ref.arr(val),
            f"{c} eigenvector equation with tolerance {tol}",
            tol=1e-8,
            scale=max(1.0, w[-1]),
        )
    for bad in ("", "Harmonic", "grad", "divergence"):
        ref.raises(
            ValueError,
            lambda: sc.get_component_eigenpair(component=bad),
            f"component {bad!r}",
        )
    vec, val = sc.get_component_eigenpair()
    ref.exact(ref.arr(vec).shape[1], dims["harmonic"], "default component")
    ref.need(np.array_equal(keep, x), "the given flow was changed")


@st.composite
def matrix_cases(draw):
    c = draw(gen.complexes(min_nodes=2, max_nodes=8, big=True))
    c["which"] = draw(st.sampled_from(["L0", "L1", "L1l", "L1u"]))
    c["pick"] = draw(st.integers(0, 40))
    return c


def check_matrix(case, rec):
    """The eigendecomposition module used directly."""
    from pytspl.decomposition import eigendecomposition as ed

    L1, low, up = ref.laps(case)
    d1 = ref.b1(case)
    M = {"L0": d1 @ d1.T, "L1": L1, "L1l": low, "L1u": up}[case["which"]]
    keep = M.copy()
    n = len(M)
    if n < 2:
        rec.label("1x1")
    rec.label(case["which"])
    U, w = ed.get_eigendecomposition(M)
    U, w = ref.arr(U), ref.arr(w)
    ref.need(U.shape == (n, n) and w.shape == (n,), f"{U.shape}, {w.shape}")
    s = max(1.0, float(np.max(np.abs(M))))
    ref.same(U.T @ U, np.eye(n), "orthonormality", tol=1e-8)
    ref.same(U @ np.diag(w) @ U.T, M, "reconstruction", tol=1e-8, scale=s)
    ref.need(np.all(np.diff(w) >= -1e-9 * s), f"not ascending: {w.tolist()}")
    ev = np.linalg.eigvalsh(M)
    rec.mark(n > 2 and ev[-1] > 1e-6)
    gaps = [
        (a + b) / 2 for a, b in zip(ev, ev[1:]) if b - a > 1e-2
    ] + [float(ev[-1]) + 1.0]
    tol = float(gaps[case["pick"] % len(gaps)])
    U2, w2 = ed.get_eigendecomposition(M, tolerance=tol)
    w2 = ref.arr(w2)
    ref.same(
        w2, np.where(np.abs(ev) < tol, 0.0, ev), f"values, tolerance {tol}"
    )
    ref.need(
        np.all(w2[np.abs(ev) < tol] == 0.0),
        f"values below tolerance {tol} are not exactly zero: {w2.tolist()}",
    )
    ref.same(
        ref.arr(U2).T @ ref.arr(U2), np.eye(n), "orthonormality", tol=1e-8
    )
    for fn, sel in (
        (ed.get_gradient_eigenpair, ev > tol),
        (ed.get_curl_eigenpair, ev > tol),
        (ed.get_harmonic_eigenpair, ev <= tol),
    ):
        v, x = fn(M, tol)
        v, x = ref.arr(v), ref.arr(x)
        ref.same(x, ev[sel], f"{fn.__name__} values, tolerance {tol}")
        ref.need(v.shape == (n, int(sel.sum())), f"{fn.__name__}: {v.shape}")
        ref.same(
            M @ v, v * x, f"{fn.__name__} vectors", tol=1e-8, scale=s
        )
        ref.same(
            v.T @ v, np.eye(int(sel.sum())), f"{fn.__name__} orthonormality",
            tol=1e-8,
        )
    # a tolerance equal to one of the reported eigenvalues
    for fn, above in (
        (ed.get_gradient_eigenpair, True),
        (ed.get_curl_eigenpair, True),
        (ed.get_harmonic_eigenpair, False),
        (ed.get_eigendecomposition, None),
    ):
        far = -1.0 if above else 1e9
        if above is None:
            every, again = (ref.arr(fn(M)[1]) for _ in range(2))
        else:
            every, again = (ref.arr(fn(M, far)[1]) for _ in range(2))
        if not np.array_equal(every, again):
            continue
        t = float(every[case["pick"] % n])
        x = ref.arr(fn(M, t)[1])
        if above is None:
            if t > 1e-9:
                want = np.where(np.abs(every) < t, 0.0, every)
                rec.label("tolerance at an eigenvalue")
                ref.same(x, want, f"values, tolerance {t}, an eigenvalue")
        else:
            want = every[every > t] if above else every[every <= t]
            ref.need(
                len(x) == len(want),
                f"{fn.__name__}: {len(x)} values with the tolerance {t}, "
                f"which is an eigenvalue; expected {want.tolist()}",
            )
    ref.need(np.array_equal(M, keep), "the given matrix was changed")
    tv = ed.get_total_variance(M)
    ref.same(np.sort(ref.arr(tv)), ev, "total variance", tol=1e-9)


def check_slow(case, rec):
    """The default tolerance, on complexes with modes near it."""
    sc = ref.build(case)
    L1, low, up = ref.laps(case)
    for c, m in (("harmonic", L1), ("gradient", low), ("curl", up)):
        ev = np.linalg.eigvalsh(m)
        if np.any(np.abs(ev - 1e-3) < 1e-7):
            raise Skip("a mode at the tolerance")
        want = ev[ev <= 1e-3] if c == "harmonic" else ev[ev > 1e-3]
        vec, val = sc.get_component_eigenpair(component=c)
        ref.same(val, want, f"{c} values, default tolerance", 1e-9)
        vec = ref.arr(vec)
        ref.need(vec.shape == (len(L1), len(want)), f"{c}: {vec.shape}")
        ref.same(m @ vec, vec * want, f"{c} vectors, default tolerance", 1e-9)
    rec.mark()


CLAUSES = [
    Fixed("slow modes", gen.slow_cases, check_slow),
    Clause("eigenpairs", cases, check, 4000),
    Clause("module", matrix_cases, check_matrix, 4000),
    Clause("large", lambda: cases(big="large"), check, 160),
    Clause("huge", lambda: cases(big="huge400"), check, 16, seeded=True),
]
