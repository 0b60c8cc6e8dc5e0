"""C18 Chebyshev filters."""

import numpy as np

from vf import cheb, gen, ref, st
from vf.core import Clause, listed

cheb.install()

META = {
    "title": "Chebyshev filters are the truncated series of the logistic response",
    "statement": (
        "For every complex, flow, operator, filter size, number of "
        "interpolation points, cut-off and steepness, the Chebyshev filter is "
        "the truncated Chebyshev series of the logistic response on the "
        "interval from zero to the operator's largest eigenvalue, applied to "
        "the operator; the filtered flow is that filter times the flow. The "
        "reported scaling is half the largest eigenvalue, and the recorded "
        "responses, component errors and filter errors are those of the "
        "recorded filters. An unknown operator or component, or plotting "
        "responses before filtering, is rejected with a ValueError."
    ),
    "over": ["inputs"],
    "quantifier": (
        "every complex with a non-zero operator, flow, size, number of points "
        "not below the size, cut-off and steepness"
    ),
    "why": (
        "the tests need a package that is missing in many installations and "
        "compare rounded values on two networks"
    ),
    "files": [
        "pytspl/filters/chebyshev_filter_design.py",
        "pytspl/filters/base_filter.py",
    ],
    "mechanism": [
        {
            "name": "three-term recurrence",
            "where": "ChebyshevFilterDesign._chebyshev_filter_approximate",
        },
        {
            "name": "scaling of the spectrum",
            "where": "ChebyshevFilterDesign.get_alpha",
        },
        {"name": "filtering", "where": "ChebyshevFilterDesign.apply"},
    ],
}
RULE = (
    "random complex and flow, operator, size 1..36, points up to size+260, "
    "cut-off and steepness; oracle: the series evaluated on the reference "
    "spectrum with Chebyshev polynomials; non-trivial = size at least 3 and "
    "at least 3 distinct eigenvalues"
)
ASSUMPTIONS = [
    "chebpy is not installed: a stand-in with the same interface provides "
    "the interpolation coefficients"
]
NAMES = ("L1", "L1L", "L1U")


def logistic(x, cut, steep):
    return 1 / (1 + np.exp(-steep * (np.asarray(x, float) - cut)))


def series(P, coeffs, top):
    c = np.asarray(coeffs, float)
    return ref.of_matrix(
        P, lambda x: np.polynomial.chebyshev.chebval(2 * x / top - 1, c)
    )


@st.composite
def cases(draw, big=True):
    p = draw(st.sampled_from(NAMES))
    c = draw(
        gen.complex_flow(
            min_nodes=3,
            max_nodes=8,
            big=big,
            nonzero=True,
            need_tri=p == "L1U",
        )
    )
    c["p"] = p
    c["component"] = draw(st.sampled_from(ref.COMPONENTS))
    c["L"] = draw(st.integers(1, 12)) * draw(
        st.sampled_from([1] * 12 + [3] * 5 + [10])
    )
    c["extra"] = draw(st.integers(0, 20)) + draw(
        st.sampled_from([0, 0, 0, 0, 0, 40, 110, 240])
    )
    c["n_given"] = draw(st.booleans())
    c["cut"] = draw(st.floats(0.0, 4.0))
    c["steep"] = draw(st.integers(1, 100)) * draw(st.sampled_from([1, 1, 5]))
    c["plain"] = draw(st.booleans())
    c["bare"] = draw(st.integers(0, 24)) == 0
    if c["bare"]:  # everything but the flow left to the defaults
        c.update(p="L1L", component="gradient", L=10, plain=True)
        c["n_given"] = False
    c["bad"] = draw(st.sampled_from(["", "L2", "l1", "upper"]))
    c["badc"] = draw(st.sampled_from(["", "grad", "HARMONIC"]))
    return c


def matches(H, want, what, strict):
    """Entry j holds the filter of size j+1. Recorded finding: every entry
    but the last holds the filter of the next size."""
    L = len(want)
    ref.need(np.shape(H)[0] == L, f"{what}: {np.shape(H)[0]} entries, not {L}")
    shifted = [want[min(j + 1, L - 1)] for j in range(L)]
    for cand in [want] if strict else [want, shifted]:
        err = max(float(np.max(np.abs(H[j] - cand[j]))) for j in range(L))
        if err <= 1e-9:
            return
    ref.same(H[-1], want[-1], f"{what}: final entry", 1e-9)
    ref.need(False, f"{what}: intermediate entries differ by {err:.3g}")


def check(case, rec):
    from pytspl.filters import ChebyshevFilterDesign

    strict = case.get("strict") or not listed("C18", "next-size")
    sc = ref.build(case)
    fil = ChebyshevFilterDesign(sc)
    f = ref.vec(case["flow"])
    P = ref.operator(case, case["p"])
    w = ref.spectrum(P)
    top = float(w[-1])
    L = case["L"]
    n = L + case["extra"] if case["n_given"] else L
    cut, steep = (0.01, 100) if case["plain"] else (case["cut"], case["steep"])
    rec.label(case["p"], case["component"])
    rec.mark(L >= 3 and len(ref.merge(w)[0]) >= 3)
    s = max(1.0, float(np.max(np.abs(f))))
    a, lam = fil.get_alpha(p_choice=case["p"])
    ref.same([a, lam], [top / 2, top], "scaling", 1e-9)
    ref.raises(
        ValueError,
        lambda: fil.plot_frequency_response_approx(flow=f, component="gradient"),
        "plotting before filtering",
    )
    kw = {}
    if case["n_given"]:
        kw["n"] = n
    if not case["plain"]:
        kw.update(cut_off_frequency=cut, steep=steep)
    u = ref.Unit(case)
    if case.get("bare"):
        fil.apply(u.up(f))
    else:
        kw.update(p_choice=case["p"], component=case["component"], L=L)
        fil.apply(f=u.up(f), **kw)
    h = dict(fil.history)
    for key in ("f_estimated", "frequency_responses"):
        h[key] = u.down(np.asarray(h[key], float))
    co = cheb.coefficients(lambda x: logistic(x, cut, steep), 0.0, top, n)
    want = [series(P, co[: l + 1], top) for l in range(L)]
    matches(h["filter"], want, "filters", strict)
    H = np.asarray(h["filter"])
    ref.same(h["f_estimated"], H @ f, "filtered flows", 1e-9, s * len(f))
    ref.same(
        h["f_estimated"][-1], want[-1] @ f, "filtered flow", 1e-9, s * len(f)
    )
    # responses: coordinates of the filtered flows in an eigenbasis of the
    # Hodge Laplacian, compared per eigenspace
    full = ref.operator(case, "L1")
    wl, ul = np.linalg.eigh(full)
    fr = np.asarray(h["frequency_responses"])
    ref.need(fr.shape == (L, len(f)), f"responses: shape {fr.shape}")
    coords = (H @ f) @ ul
    i = 0
    while i < len(wl):
        j = i + 1
        while j < len(wl) and wl[j] - wl[j - 1] < 1e-6:
            j += 1
        ref.same(
            np.sum(fr[:, i:j] ** 2, axis=1),
            np.sum(coords[:, i:j] ** 2, axis=1),
            f"energy of the responses at frequency {wl[i]:.4g}",
            1e-6,
            (s * len(f)) ** 2,
        )
        i = j
    proj = dict(zip(ref.COMPONENTS, ref.projectors(case)))[case["component"]]
    true = proj @ f
    if np.linalg.norm(true) > 1e-6 * s:
        k = np.linalg.norm(true) / (s * len(f))
        ref.same(
            h["extracted_component_error"],
            [ref.nrmse(x @ f, true) for x in H],
            "component errors",
            1e-9 / k,
        )
    if ref.component_mask(case, case["component"]) is not None:
        rec.label("unambiguous ideal filter")
        ref.same(
            h["filter_error"],
            [np.linalg.norm(x - proj, ord=2) for x in H],
            "filter errors",
            1e-6,
        )
        ref.same(
            fil.get_ideal_frequency(
                fil.get_component_coefficients(case["component"])
            ),
            proj,
            "ideal filter",
            1e-6,
        )
    out = fil.get_chebyshev_frequency_approx(
        p_choice=case["p"], coeffs=co, alpha=top / 2, order=L
    )
    matches(np.asarray(out), want, "series of the operator", strict)
    for bad, kw in (
        ("operator", {"p_choice": case["bad"]}),
        ("component", {"component": case["badc"]}),
    ):
        ref.raises(ValueError, lambda: fil.apply(f=f, L=L, **kw), f"unknown {bad}")


@st.composite
def plot_cases(draw):
    c = draw(cases())
    c["component"] = draw(st.sampled_from(["gradient", "curl"]))
    c["points"] = draw(st.sampled_from(["more", "more", "default"]))
    return c


def check_plot(case, rec):
    import matplotlib.pyplot as plt

    from pytspl.filters import ChebyshevFilterDesign

    fil = ChebyshevFilterDesign(ref.build(case))
    f = ref.vec(case["flow"])
    P = ref.operator(case, case["p"])
    w = ref.spectrum(P)
    top, n = float(w[-1]), case["L"] + 2
    cut, steep = case["cut"], case["steep"]
    points = {"n": n}
    if case["points"] == "default":
        n, points = len(w), {}  # as many as edges
    rec.label(f"{case['points']} points")
    plt.close("all")
    if case["plain"]:
        cut, steep = 0.01, 100
    else:
        points.update(cut_off_frequency=cut, steep=steep)
    fil.plot_chebyshev_series_approx(p_choice=case["p"], **points)
    sets = plt.gca().collections
    ref.need(len(sets) == 2, f"{len(sets)} point sets drawn, expected two")
    co = cheb.coefficients(lambda x: logistic(x, cut, steep), 0.0, top, n)
    approx = np.polynomial.chebyshev.chebval(2 * w / top - 1, co)
    for got, y, what in (
        (sets[0], logistic(w, cut, steep), "function"),
        (sets[1], approx, "approximation"),
    ):
        o = ref.arr(got.get_offsets())
        ref.same(o[:, 0], w, f"{what}: frequencies", 1e-9)
        ref.same(o[:, 1], y, f"{what}: values", 1e-6)
    rec.mark(len(w) > 3)
    fil.apply(f=f, p_choice=case["p"], component=case["component"], L=case["L"])
    plt.close("all")
    fil.plot_frequency_response_approx(flow=f, component=case["component"])
    sets = plt.gca().collections
    ref.need(len(sets) == 2, f"{len(sets)} point sets drawn, expected two")
    wl = ref.spectrum(ref.operator(case, "L1"))
    true = (
        dict(zip(ref.COMPONENTS, ref.projectors(case)))[case["component"]] @ f
    )
    for got, vec, what in (
        (sets[0], true, "true component"),
        (sets[1], fil.history["f_estimated"][-1], "estimate"),
    ):
        o = ref.arr(got.get_offsets())
        ref.same(o[:, 0], wl, f"{what}: frequencies", 1e-9)
        e = float(vec @ vec)
        ref.need(
            abs(float(np.sum(o[:, 1] ** 2)) - e) <= 1e-6 * max(1.0, e),
            f"{what}: plotted responses do not carry its energy",
        )
        low = wl < 1e-9
        pz = np.eye(len(f)) - ref.proj(ref.operator(case, "L1"))
        ref.need(
            abs(float(np.sum(o[low, 1] ** 2)) - float(vec @ pz @ vec))
            <= 1e-6 * max(1.0, e),
            f"{what}: response at frequency zero",
        )


CLAUSES = [
    Clause("series filter", cases, check, 2400),
    Clause("plots", plot_cases, check_plot, 160),
    Clause("large", lambda: cases(big="large-tame"), check, 48, seeded=True),
    Clause("huge", lambda: cases(big="huge200-tame"), check, 8, seeded=True),
]
STRICT = {
    "n": 3,
    "edges": [[0, 1], [1, 2]],
    "tris": [],
    "flow": [1.0, 2.0],
    "p": "L1L",
    "component": "gradient",
    "L": 3,
    "extra": 0,
    "n_given": False,
    "cut": 0.5,
    "steep": 5,
    "plain": False,
    "bad": "L2",
    "badc": "grad",
    "strict": True,
}
KNOWN = {"next-size": (CLAUSES[0], STRICT)}
