"""C17 grid-based filters."""

import numpy as np

from vf import gen, ref, st
from vf.core import Clause, Skip

META = {
    "title": "Grid-based filters fit the target response on a uniform spectral grid",
    "statement": (
        "For every complex, flow, operator, filter size and parameters, the "
        "grid-based filter is the polynomial in the chosen Laplacian that best "
        "fits, in the least-squares sense, the target response sampled "
        "uniformly from zero to the largest eigenvalue: 1/(1+mu x) at as many "
        "points as edges for denoising, the requested logistic curve at the "
        "requested number of points for component extraction. The filtered "
        "flow, and the responses and errors recorded for sizes 1 up to the "
        "requested one, are those of that polynomial; an unknown operator or "
        "component is rejected with a ValueError."
    ),
    "over": ["inputs"],
    "quantifier": (
        "every complex, flow, operator, size, number of samples, damping, "
        "cut-off and steepness"
    ),
    "why": (
        "the tests check rounded numbers on two networks with one operator; "
        "they cannot see a grid that misses the end of other spectra"
    ),
    "files": [
        "pytspl/filters/grid_based_filter_design.py",
        "pytspl/filters/base_filter.py",
    ],
    "mechanism": [
        {
            "name": "spectral grid and target response",
            "where": "GridBasedFilterDesign._sample_grid_points, _compute_sampled_continuous_freq_response",
        },
        {
            "name": "least-squares system and matrix polynomial",
            "where": "GridBasedFilterDesign._apply_filter",
        },
        {"name": "logistic target", "where": "BaseFilter.logistic_function"},
    ],
}
RULE = (
    "random complex and flow, operator, size 1..6 (at most the number of grid "
    "points), mu, cut-off, steepness and number of samples; oracle: fit in a "
    "Chebyshev basis on the reference grid; operators that are zero lie "
    "outside the domain; non-trivial = size at least 2 and a non-zero flow"
)
NAMES = ("L1", "L1L", "L1U")


def logistic(x, cut, steep):
    return 1 / (1 + np.exp(-steep * (np.asarray(x, float) - cut)))


def judge(h, u, P, grid, target, L, f, true, what):
    cond = ref.vander_cond(grid, L)
    if cond > 1e8:
        raise Skip("ill-conditioned")
    tol = 1e-9 + 2e-14 * cond * cond ** 0.25
    w = ref.spectrum(P)
    s = max(1.0, float(np.max(np.abs(f))))
    est = u.down(h["f_estimated"])
    errs = []
    for l in range(1, L + 1):
        ref.same(
            h["frequency_responses"][l - 1],
            ref.poly_fit(grid, target, l, w),
            f"{what}: response of size {l}",
            tol,
        )
        H = ref.of_matrix(P, lambda x: ref.poly_fit(grid, target, l, x))
        errs.append(H @ f)
    ref.same(h["filter"], H, f"{what}: filter", tol)
    ref.same(est, H @ f, f"{what}: flow", tol, s * len(f))
    ref.need(
        np.shape(h["extracted_component_error"]) == (L,)
        and np.shape(h["frequency_responses"]) == (L, len(f)),
        f"{what}: one entry per size expected",
    )
    if np.linalg.norm(true) > 1e-6 * s:
        k = np.linalg.norm(true) / (s * len(f))
        ref.same(
            h["extracted_component_error"],
            [ref.nrmse(e, true) for e in errs],
            f"{what}: errors",
            tol / k,
        )


@st.composite
def cases(draw, big=True):
    kind = draw(st.sampled_from(["denoise", "extract"]))
    p = draw(st.sampled_from(NAMES))
    c = draw(
        gen.complex_flow(
            min_nodes=3,
            max_nodes=8,
            big=big,
            nonzero=True,
            flows=2,
            need_tri=p == "L1U",
        )
    )
    c["kind"], c["p"] = kind, p
    c["component"] = draw(st.sampled_from(ref.COMPONENTS))
    c["mu"] = draw(st.log_floats(1e-2, 50.0))
    if draw(st.integers(0, 5)) == 0:
        c["mu"] = draw(st.sampled_from([0.0, 0, 1, 1e-6, 1000.0]))
    c["samples"] = draw(st.integers(2, 30)) * draw(
        st.sampled_from([1, 1, 1, 1, 1, 4, 4, 30])
    )
    top = len(c["edges"]) if kind == "denoise" else c["samples"]
    c["L"] = draw(st.integers(1, max(1, min(draw(st.sampled_from([6, 6, 12])), top))))
    c["cut"] = draw(st.floats(0.0, 4.0))
    c["steep"] = draw(st.integers(1, 100)) * draw(st.sampled_from([1, 1, 5]))
    c["plain"] = draw(st.booleans())
    c["bad"] = draw(st.sampled_from(["", "L2", "l1", "upper"]))
    c["badc"] = draw(st.sampled_from(["", "grad", "HARMONIC"]))
    return c


def check(case, rec):
    from pytspl.filters import GridBasedFilterDesign

    fil = GridBasedFilterDesign(ref.build(case))
    f = ref.vec(case["flow"])
    P = ref.operator(case, case["p"])
    top = float(ref.spectrum(P)[-1])
    L = case["L"]
    u = ref.Unit(case)
    rec.label(case["kind"], case["p"])
    rec.mark(L >= 2)
    if case["kind"] == "denoise":
        ft = ref.vec(case["flow2"])
        kw = {} if case["plain"] else {"mu": case["mu"]}
        mu = 0.5 if case["plain"] else case["mu"]
        fil.denoise(
            f=u.up(f), f_true=u.up(ft), p_choice=case["p"], L=L, **kw
        )
        grid = np.linspace(0, top, len(f))
        judge(fil.history, u, P, grid, 1 / (1 + mu * grid), L, f, ft, "denoise")
        ref.raises(
            ValueError,
            lambda: fil.denoise(f=f, f_true=ft, p_choice=case["bad"], L=L),
            f"operator {case['bad']!r}",
        )
    else:
        true = (
            dict(zip(ref.COMPONENTS, ref.projectors(case)))[case["component"]]
            @ f
        )
        m, cut, steep, kw = 10, 0.01, 100, {}
        if not case["plain"] or L > 10:
            m, cut, steep = case["samples"], case["cut"], case["steep"]
            kw = dict(
                num_of_samples=m,
                mu=case["mu"],
                cut_off_frequency=cut,
                steep=steep,
            )
        fil.subcomponent_extraction(
            f=u.up(f),
            component=case["component"],
            p_choice=case["p"],
            L=L,
            **kw,
        )
        if m < L:
            raise Skip("fewer points than coefficients")
        grid = np.linspace(0, top, m)
        rec.label(case["component"])
        judge(
            fil.history, u, P, grid, logistic(grid, cut, steep), L, f, true, "extract"
        )
        ref.raises(
            ValueError,
            lambda: fil.subcomponent_extraction(
                f=f, component="gradient", p_choice=case["bad"], L=L
            ),
            f"operator {case['bad']!r}",
        )
        ref.raises(
            ValueError,
            lambda: fil.subcomponent_extraction(
                f=f, component=case["badc"], p_choice=case["p"], L=L
            ),
            f"component {case['badc']!r}",
        )


CLAUSES = [
    Clause("grid filter", cases, check, 5000),
    Clause("large", lambda: cases(big="large-tame"), check, 160),
    Clause("huge", lambda: cases(big="huge300"), check, 16, seeded=True),
]
