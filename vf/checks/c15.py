"""C15 edge flow denoising."""

import numpy as np

from vf import gen, ref, st
from vf.core import Clause

META = {
    "title": "Low-pass denoising is the exact regularised least-squares solution",
    "statement": (
        "For every complex, flow, choice of operator P (Hodge, lower or upper "
        "Laplacian) and regularisation weights, the denoised flow is the "
        "minimiser of the squared distance to the noisy flow plus mu times "
        "the quadratic form of P, for the last weight. Per weight, the "
        "recorded frequency response at each eigenvalue x of P is 1/(1+mu x) "
        "and the recorded error is the normalised distance to the true flow. "
        "An unknown operator name, or plotting before denoising, is rejected "
        "with a ValueError."
    ),
    "over": ["inputs"],
    "quantifier": "every complex, flow, operator and list of weights",
    "why": (
        "the tests check rounded errors of one network with fixed weights; "
        "the solution must be exact for every complex and weight"
    ),
    "files": [
        "pytspl/filters/edge_flow_denoising.py",
        "pytspl/filters/base_filter.py",
    ],
    "mechanism": [
        {"name": "low-pass filter", "where": "EdgeFlowDenoising.denoise"},
        {"name": "operator choice", "where": "BaseFilter.get_p_matrix"},
        {"name": "error", "where": "BaseFilter.calculate_error_NRMSE"},
    ],
}
RULE = (
    "random complex, noisy and true flow, operator, 1..4 weights spread over "
    "1e-3..1e3; oracle: linear solve with reference Laplacians and spectral "
    "formula; non-trivial = the flow is changed by the filter"
)
NAMES = ("L1", "L1L", "L1U")


@st.composite
def cases(draw, big=True):
    c = draw(gen.complex_flow(min_nodes=2, max_nodes=8, big=big, nonzero=True, flows=2))
    c["p"] = draw(st.sampled_from(NAMES))
    c["mu"] = draw(st.lists(st.log_floats(1e-4, 1e4), min_size=1, max_size=7))
    if draw(st.integers(0, 29)) == 0:
        c["mu"] = draw(
            st.lists(st.log_floats(1e-8, 1e4), min_size=8, max_size=40)
        )
    if draw(st.integers(0, 3)) == 0:
        i = draw(st.integers(0, len(c["mu"]) - 1))
        c["mu"][i] = draw(st.sampled_from([0.0, 1.0, 2.0, c["mu"][0]]))
    c["kind"] = draw(st.sampled_from(["list", "array", "default"]))
    c["bad"] = draw(st.sampled_from(["", "L2", "l1", "L1l", "L0", "lower"]))
    return c


def check(case, rec):
    from pytspl.filters import EdgeFlowDenoising

    sc = ref.build(case)
    fil = EdgeFlowDenoising(sc)
    f = ref.vec(case["flow"])
    ft = ref.vec(case["flow2"])
    P = ref.operator(case, case["p"])
    E = len(f)
    mus = [0.5] if case["kind"] == "default" else case["mu"]
    s = max(1.0, float(np.max(np.abs(f))))
    ref.raises(
        ValueError,
        lambda: fil.plot_desired_frequency_response(p_choice=case["p"]),
        "plotting before denoising",
    )
    kw = {}
    if case["kind"] != "default":
        kw["mu_vals"] = np.array(mus) if case["kind"] == "array" else mus
    u = ref.Unit(case)
    fil.denoise(f=u.up(f), f_true=u.up(ft), p_choice=case["p"], **kw)
    h = dict(fil.history)
    h["f_estimated"] = u.down(h["f_estimated"])
    ests = [np.linalg.solve(np.eye(E) + m * P, f) for m in mus]
    ref.same(h["f_estimated"], ests[-1], "denoised flow", 1e-8, s)
    rec.mark(np.max(np.abs(ests[-1] - f)) > 1e-3 * s)
    rec.label(case["p"], f"{len(mus)} weights")
    w = ref.spectrum(P)
    A = np.eye(E) + mus[-1] * P
    ref.same(h["filter"], np.linalg.inv(A), "filter", 2e-9)
    ref.same(
        h["filter"] @ A,
        np.eye(E),
        "filter times its inverse",
        2e-9 + 1e-15 * (1 + mus[-1] * max(0.0, w[-1])) ** 2,
    )
    ref.same(
        h["frequency_responses"],
        np.array([1 / (1 + m * w) for m in mus]),
        "frequency responses",
        2e-9,
    )
    if np.any(ft):
        ref.same(
            h["extracted_component_error"],
            np.array([ref.nrmse(e, ft) for e in ests]),
            "errors",
            2e-9,
        )
    else:
        ref.need(
            np.shape(h["extracted_component_error"]) == (len(mus),),
            "errors: one per weight",
        )
    ref.history_floats(
        h, ("filter", "f_estimated", "frequency_responses"), "denoise"
    )
    # optimality, stated on its own
    m = mus[-1]
    x = h["f_estimated"]

    def cost(y):
        return float(np.sum((f - y) ** 2) + m * y @ P @ y)

    for y in (f, 0 * f, ft, x + 1e-3 * s * np.sign(ft)):
        ref.need(
            cost(x) <= cost(y) * (1 + 1e-9) + 1e-9 * s * s,
            f"denoised flow is not optimal: {cost(x)} > {cost(y)}",
        )
    ref.raises(
        ValueError,
        lambda: fil.denoise(f=f, f_true=ft, p_choice=case["bad"]),
        f"operator {case['bad']!r}",
    )


@st.composite
def plot_cases(draw):
    c = draw(gen.complex_flow(min_nodes=3, max_nodes=6, nonzero=True))
    c["p"] = draw(st.sampled_from(NAMES))
    c["mu"] = draw(st.lists(st.log_floats(1e-2, 1e2), min_size=1, max_size=3))
    return c


def check_plot(case, rec):
    import matplotlib.pyplot as plt

    from pytspl.filters import EdgeFlowDenoising

    sc = ref.build(case)
    fil = EdgeFlowDenoising(sc)
    f = ref.vec(case["flow"])
    fil.denoise(f=f, f_true=f, p_choice=case["p"], mu_vals=case["mu"])
    plt.close("all")
    fil.plot_desired_frequency_response(p_choice=case["p"])
    lines = plt.gca().get_lines()
    ref.need(len(lines) == 1, f"{len(lines)} curves drawn, expected one")
    w = ref.spectrum(ref.operator(case, case["p"]))
    ref.same(lines[0].get_xdata(), w, "plotted frequencies", 1e-9)
    ref.same(
        lines[0].get_ydata(), 1 / (1 + case["mu"][-1] * w), "plotted response", 2e-9
    )
    rec.mark(len(case["mu"]) > 1)


CLAUSES = [
    Clause("denoise", cases, check, 8000),
    Clause("plot", plot_cases, check_plot, 160),
    Clause("large", lambda: cases(big="large"), check, 160),
    Clause("huge", lambda: cases(big="huge"), check, 24, seeded=True),
]
