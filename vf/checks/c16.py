"""C16 least-squares component extraction."""

import numpy as np

from vf import gen, ref, st
from vf.core import Clause, Skip

META = {
    "title": "Least-squares extraction uses the best-fitting polynomial filter",
    "statement": (
        "For every complex, flow, component and filter size, the extraction "
        "filter is the polynomial of that many coefficients in the chosen "
        "Laplacian whose frequency response is the best least-squares fit to "
        "the ideal response: over the whole Hodge spectrum for type one, and "
        "over the distinct eigenvalues of the lower (gradient) or upper "
        "(curl) Laplacian for type two, where eigenvalues up to the given "
        "tolerance count as zero and closer ones as one. With as many coefficients as distinct "
        "eigenvalues the extracted flow equals the true component exactly. "
        "The recorded responses and errors are those of sizes 1 up to the "
        "requested one, and type two rejects other components with a "
        "ValueError."
    ),
    "over": ["inputs"],
    "quantifier": "every complex, flow, component, filter size and tolerance",
    "why": (
        "the tests compare rounded results on two networks; fit optimality "
        "and exact recovery quantify over all spectra and sizes"
    ),
    "files": [
        "pytspl/filters/ls_filter_design.py",
        "pytspl/filters/base_filter.py",
    ],
    "mechanism": [
        {
            "name": "least-squares system and matrix polynomial",
            "where": "LSFilterDesign._apply_filter",
        },
        {
            "name": "ideal response",
            "where": "BaseFilter.get_component_coefficients, LSFilterDesign.subcomponent_extraction_type_two",
        },
    ],
}
RULE = (
    "random complex, flow, component and size 1..12; oracle: fit in a "
    "Chebyshev basis on the reference spectrum; cases whose ideal response is "
    "ambiguous (a gradient and a curl frequency coincide) or whose system is "
    "ill-conditioned lie outside the domain; non-trivial = the true component "
    "is non-zero and the size exceeds 1"
)


def judge(case, rec, h, u, P, points, targets, L, f, true, what, full=True):
    cond = ref.vander_cond(points, L)
    if cond > 1e8:
        raise Skip("ill-conditioned")
    tol = 1e-9 + 2e-14 * cond * cond ** 0.25
    w = ref.spectrum(P)
    s = max(1.0, float(np.max(np.abs(f))))
    est = u.down(h["f_estimated"])
    errs = []
    for l in range(1, L + 1):
        resp = ref.poly_fit(points, targets, l, w)
        ref.same(
            h["frequency_responses"][l - 1],
            resp,
            f"{what}: response of size {l}",
            tol,
        )
        H = ref.of_matrix(P, lambda x: ref.poly_fit(points, targets, l, x))
        errs.append(H @ f)
    ref.same(h["filter"], H, f"{what}: filter", tol)
    ref.same(est, H @ f, f"{what}: flow", tol, s * len(f))
    ref.need(
        np.shape(h["extracted_component_error"]) == (L,)
        and np.shape(h["frequency_responses"]) == (L, len(f)),
        f"{what}: one entry per size expected",
    )
    if np.linalg.norm(true) > 1e-6 * s:
        k = np.linalg.norm(true) / (s * len(f))
        ref.same(
            h["extracted_component_error"],
            [ref.nrmse(e, true) for e in errs],
            f"{what}: errors",
            tol / k,
        )
        rec.mark(L > 1)
        rec.label("non-zero component")
    if full and L >= len(np.unique(np.round(points, 6))):
        rec.label("exact size")
        ref.same(est, true, f"{what}: exact recovery", tol, s * len(f))


@st.composite
def one_cases(draw, big=True):
    c = draw(gen.complex_flow(min_nodes=3, max_nodes=8, big=big, nonzero=True))
    c["component"] = draw(st.sampled_from(ref.COMPONENTS))
    c["L"] = draw(st.sampled_from([1, 2, 3, 4, 5, 6, 7, 8, 10, 12]))
    c["bad"] = draw(st.sampled_from(["", "grad", "Curl", "divergence"]))
    return c


def check_one(case, rec):
    from pytspl.filters import LSFilterDesign

    fil = LSFilterDesign(ref.build(case))
    f = ref.vec(case["flow"])
    ref.raises(
        ValueError,
        lambda: fil.subcomponent_extraction_type_one(
            f=f, component=case["bad"], L=2
        ),
        f"component {case['bad']!r}",
    )
    mask = ref.component_mask(case, case["component"])
    if mask is None:
        raise Skip("ambiguous")
    P = ref.operator(case, "L1")
    true = dict(zip(ref.COMPONENTS, ref.projectors(case)))[case["component"]] @ f
    u = ref.Unit(case)
    fil.subcomponent_extraction_type_one(
        f=u.up(f), component=case["component"], L=case["L"]
    )
    rec.label(case["component"])
    w = ref.spectrum(P)
    _, gap = ref.merge(w)
    if gap < 1e-4:
        raise Skip("nearly equal eigenvalues")
    judge(case, rec, fil.history, u, P, w, mask, case["L"], f, true, "type one")


@st.composite
def two_cases(draw, big=True):
    c = draw(gen.complex_flow(min_nodes=2, max_nodes=8, big=big, nonzero=True))
    c["component"] = draw(st.sampled_from(["gradient", "curl"]))
    c["L"] = draw(st.sampled_from([1, 2, 3, 4, 5, 6, 7, 8, 10, 12]))
    c["tol"] = draw(st.sampled_from([None, None, 1e-6, 1e-4, 1e-3, "cut"]))
    c["bad"] = draw(st.sampled_from(["", "harmonic", "Curl", "divergence"]))
    return c


def check_two(case, rec):
    from pytspl.filters import LSFilterDesign

    fil = LSFilterDesign(ref.build(case))
    f = ref.vec(case["flow"])
    ref.raises(
        ValueError,
        lambda: fil.subcomponent_extraction_type_two(
            f=f, component=case["bad"], L=2
        ),
        f"component {case['bad']!r}",
    )
    grad = case["component"] == "gradient"
    P = ref.operator(case, "L1L" if grad else "L1U")
    true = dict(zip(ref.COMPONENTS, ref.projectors(case)))[case["component"]] @ f
    pts, gap = ref.merge(ref.spectrum(P))
    if gap < 2e-3:
        raise Skip("nearly equal eigenvalues")
    tol, pts, full = ref.cut_spectrum(pts, case["tol"])
    kw = {} if tol is None else {"tolerance": tol}
    # more coefficients than kept eigenvalues leave the fit undetermined
    L = case["L"] if full else min(case["L"], len(pts))
    u = ref.Unit(case)
    fil.subcomponent_extraction_type_two(
        f=u.up(f), component=case["component"], L=L, **kw
    )
    if not full:
        rec.label("tolerance above an eigenvalue")
    rec.label(case["component"])
    if pts[0] > 1e-6:
        rec.label("no zero eigenvalue")
    if len(pts) < len(f):
        rec.label("repeated eigenvalue")
    judge(
        case,
        rec,
        fil.history,
        u,
        P,
        pts,
        (pts > 1e-9) * 1.0,
        L,
        f,
        true,
        "type two",
        full,
    )


CLAUSES = [
    Clause("type one", one_cases, check_one, 3000),
    Clause("type two", two_cases, check_two, 3000),
    Clause(
        "type one, large",
        lambda: one_cases(big="large-tame"),
        check_one,
        120,
        seeded=True,
    ),
    Clause(
        "type two, large",
        lambda: two_cases(big="large-tame"),
        check_two,
        120,
        seeded=True,
    ),
]
