"""C32 linearity in the flow (metamorphic)."""

import numpy as np

from vf import cheb, gen, ref, st
from vf.core import Clause

cheb.install()

META = {
    "title": "Analyses are linear in the flow, filters independent of it",
    "statement": (
        "For every complex, divergence, curl, shifts, the unrounded Hodge "
        "components, the simplicial embedding and the flow denoised or "
        "extracted by each filter design are linear in the flow: for a "
        "combination a*f + b*g of flows they are the same combination of the "
        "results for f and g, for factors and flows of any magnitude. The "
        "recorded filter depends only on the complex and the options, not on "
        "the flow; it is symmetric, commutes with the Laplacian it is built "
        "from, and applied to the flow gives the recorded estimate. The "
        "trend filter's l2 denoising of a multiple of a flow, with the same "
        "random noise, is that multiple of the denoised flow, with the same "
        "errors and correlations."
    ),
    "over": ["inputs"],
    "quantifier": "every complex, pair of flows, factors, design and options",
    "why": (
        "the tests filter one flow of one magnitude; an absolute threshold, "
        "an adaptation to the data or a clipped value is not seen"
    ),
    "files": [
        "pytspl/simplicial_complex/simplicial_complex.py",
        "pytspl/decomposition/hodge_decomposition.py",
        "pytspl/filters/edge_flow_denoising.py",
        "pytspl/filters/ls_filter_design.py",
        "pytspl/filters/grid_based_filter_design.py",
        "pytspl/filters/chebyshev_filter_design.py",
        "pytspl/filters/simplicial_trend_filter.py",
    ],
    "mechanism": [
        {"name": "linear operators", "where": "SimplicialComplex"},
        {"name": "projections", "where": "hodge_decomposition"},
        {"name": "H = h(P), f_estimated = H @ f", "where": "filter designs"},
    ],
}
RULE = (
    "random complex, two random flows, factors of any magnitude and one "
    "filter; oracle: the combination of the results, and algebraic "
    "properties of the recorded filter; non-trivial = there is a triangle "
    "and neither flow is a multiple of the other"
)
ASSUMPTIONS = ["chebpy is not installed: a stand-in computes the coefficients"]

DESIGNS = ("denoise", "one", "two", "grid-denoise", "grid", "chebyshev")
FACTORS = [1.0, -1.0, 2.0, 0.5, -3.0, 1e-6, 1e6, 1e-12]


@st.composite
def cases(draw, big=True):
    c = draw(
        gen.complex_flow(
            min_nodes=3, max_nodes=7, big=big, nonzero=True, flows=2
        )
    )
    c.pop("form", None)
    c["a"] = draw(st.sampled_from(FACTORS))
    c["b"] = draw(st.sampled_from(FACTORS + [0.0]))
    c["k"] = draw(st.integers(0, 4))
    c["design"] = draw(st.sampled_from(DESIGNS))
    c["component"] = draw(st.sampled_from(ref.COMPONENTS))
    c["p"] = draw(st.sampled_from(["L1", "L1L", "L1U"]))
    if c["design"] == "chebyshev" and not c["tris"] and c["p"] == "L1U":
        c["p"] = "L1"  # the interval from zero to zero has no series
    c["L"] = draw(st.integers(1, 5))
    c["mu"] = draw(st.floats(0.05, 20.0))
    c["cut"] = draw(st.floats(0.01, 3.0))
    c["steep"] = draw(st.integers(1, 60))
    return c


def apply(case, sc, f):
    """(estimate, filter, the Laplacian it is built from)."""
    from pytspl.filters import (
        ChebyshevFilterDesign,
        EdgeFlowDenoising,
        GridBasedFilterDesign,
        LSFilterDesign,
    )

    kind, comp, p, L = (case[k] for k in ("design", "component", "p", "L"))
    if kind == "denoise":
        fil = EdgeFlowDenoising(sc)
        fil.denoise(f=f, f_true=f, p_choice=p, mu_vals=[case["mu"]])
    elif kind == "one":
        fil, p = LSFilterDesign(sc), "L1"
        fil.subcomponent_extraction_type_one(f=f, component=comp, L=L)
    elif kind == "two":
        comp = "curl" if comp == "curl" else "gradient"
        fil, p = LSFilterDesign(sc), "L1U" if comp == "curl" else "L1L"
        fil.subcomponent_extraction_type_two(f=f, component=comp, L=L)
    elif kind == "grid-denoise":
        fil = GridBasedFilterDesign(sc)
        fil.denoise(f=f, f_true=f, p_choice=p, L=L, mu=case["mu"])
    elif kind == "grid":
        fil = GridBasedFilterDesign(sc)
        fil.subcomponent_extraction(
            f=f,
            component=comp,
            p_choice=p,
            L=L,
            num_of_samples=20,
            cut_off_frequency=case["cut"],
            steep=case["steep"],
        )
    else:
        fil = ChebyshevFilterDesign(sc)
        fil.apply(
            f=f,
            p_choice=p,
            component=comp,
            L=L,
            n=12,
            cut_off_frequency=case["cut"],
            steep=case["steep"],
        )
        return (
            ref.arr(fil.history["f_estimated"])[-1],
            ref.arr(fil.history["filter"])[-1],
            ref.operator(case, p),
        )
    return (
        ref.arr(fil.history["f_estimated"]),
        ref.arr(fil.history["filter"]),
        ref.operator(case, p),
    )


def check(case, rec):
    sc = ref.build(case)
    E = len(case["edges"])
    a, b, k = case["a"], case["b"], case["k"]
    unit = 2.0 ** case.get("pow", 0)
    f = unit * np.asarray(ref.vec(case["flow"]), float)
    g = unit * np.asarray(ref.vec(case["flow2"]), float)
    h = a * f + b * g
    s = float(abs(a) * np.abs(f).max() + abs(b) * np.abs(g).max())
    rec.mark(
        case["tris"]
        and np.linalg.matrix_rank(np.array([f / np.abs(f).max(), g / unit])) == 2
    )
    rec.label(case["design"])

    def linear(fn, what, gain=1.0, tol=1e-9):
        x, y, z = (np.asarray(ref.arr(fn(v)), float) for v in (f, g, h))
        # relative to the combination's magnitude: nothing absolute in it
        ref.same(z / s, (a * x + b * y) / s, what, tol, gain * E)

    big = max(1.0, float(np.max(np.abs(ref.laps(case)[0])))) * 3
    linear(sc.get_divergence, "divergence of a combination", big)
    linear(sc.get_curl, "curl of a combination", big)
    for name in ("lower", "upper", "k_step"):
        linear(
            lambda v: getattr(sc, f"apply_{name}_shifting")(v, steps=k),
            f"{name} shift of a combination",
            (big * 4) ** k * 2,
        )
    for comp in ref.COMPONENTS:
        linear(
            lambda v: sc.get_component_flow(v, component=comp, round_fig=False),
            f"{comp} component of a combination",
        )
    for i, part in enumerate(("harmonic", "curl", "gradient")):
        linear(
            lambda v: sc.get_simplicial_embeddings(v)[i],
            f"{part} embedding of a combination",
        )

    x, H, P = apply(case, sc, f)
    y, H2, _ = apply(case, sc, g)
    z, H3, _ = apply(case, sc, h) if np.any(h) else (0 * h, H, P)
    size = max(1.0, float(np.max(np.abs(H))))
    what = f"{case['design']} filter"
    ref.same(H2, H, f"{what} for another flow", 1e-7, size)
    ref.same(H3, H, f"{what} for a combination", 1e-7, size)
    ref.same(H, H.T, f"{what}: symmetry", 1e-7, size)
    ref.same(
        H @ P, P @ H, f"{what}: commutes with its Laplacian", 1e-6, size * big
    )
    most = float(np.abs(f).max())
    ref.same(x / most, H @ f / most, f"{what}: estimate", 1e-9, size * E)
    ref.same(z / s, (a * x + b * y) / s, f"{what}: a combination", 1e-7, size * E)


@st.composite
def trend_cases(draw):
    c = draw(gen.complex_flow(min_nodes=3, max_nodes=7, big=True, nonzero=True))
    c.pop("form", None)
    c["a"] = draw(st.sampled_from([x for x in FACTORS if x > 0] + [1e-9, 1e9]))
    c["component"] = draw(st.sampled_from(["divergence", "curl"]))
    c["mu"] = draw(st.floats(0.05, 20.0))
    c["snr"] = draw(st.lists(st.integers(-20, 20), min_size=1, max_size=3))
    c["real"] = draw(st.integers(1, 4))
    return c


def check_trend(case, rec):
    from pytspl.filters import SimplicialTrendFilter

    sc = ref.build(case)
    f = 2.0 ** case.get("pow", 0) * np.asarray(ref.vec(case["flow"]), float)
    got = []
    for v in (f, case["a"] * f):
        fil = SimplicialTrendFilter(sc)
        np.random.seed(5)
        fil.denoising_l2_regularizer(
            flow=v,
            component=case["component"],
            num_realizations=case["real"],
            snr_db=np.array(case["snr"], float),
            mu=case["mu"],
        )
        got.append(dict(fil.history))
    one, two = got
    rec.mark(case["tris"] and case["a"] != 1)
    s = float(np.abs(f).max()) * case["a"]
    noise = 10.0 ** (-min(case["snr"]) / 10)
    E = len(f)
    ref.same(two["filter"], one["filter"], "filter", 1e-9)
    for key in ("frequency_responses", "component_flow"):
        ref.same(
            ref.arr(two[key]) / s,
            case["a"] * ref.arr(one[key]) / s,
            f"{key} of a multiple",
            1e-9,
            10 * E * (1 + noise),
        )
    ref.same(two["errors"], one["errors"], "errors of a multiple", 1e-9, 1 + noise)
    c1, c2 = (ref.arr(x["correlations"]) for x in got)
    fine = np.std(f) > 1e-6 * np.abs(f).max()
    if fine and np.all(np.isfinite(c1)):
        x = ref.arr(one["frequency_responses"])
        if np.all(np.std(x, axis=0) > 1e-6 * np.abs(x).max()):
            ref.same(c2, c1, "correlations of a multiple", 1e-6)


CLAUSES = [
    Clause("combinations", cases, check, 4000),
    Clause("trend filter", trend_cases, check_trend, 2000),
    Clause("large", lambda: cases(big="large-tame"), check, 64, seeded=True),
    Clause("huge", lambda: cases(big="huge200-tame"), check, 8, seeded=True),
]
