"""C20 building blocks shared by the filters."""

import numpy as np

from vf import gen, ref, st
from vf.core import Clause, Fixed, Skip

META = {
    "title": "Filter building blocks: operators, errors, ideal responses, targets",
    "statement": (
        "For every complex and flow, the operator returned for a name is the "
        "Hodge, lower or upper Laplacian it names; the true signal of a "
        "component is its exact Hodge projection; and the ideal coefficients "
        "of a component are 1 at exactly that component's positions along the "
        "ascending Hodge spectrum and 0 elsewhere (frequencies up to 0.001 "
        "count as harmonic), so the three add up to one "
        "everywhere. The reported error is the Euclidean distance to the true "
        "signal divided by that signal's norm, and the logistic target rises "
        "from 0 to 1 through one half at the cut-off; the largest eigenvalue "
        "is the operator's, and power iteration returns the unit vector along "
        "the operator applied to ones as often as requested (50 times unless "
        "told otherwise). Unknown operator and component names are rejected "
        "with a ValueError."
    ),
    "over": ["inputs"],
    "quantifier": "every complex, flow, component, cut-off and steepness",
    "why": (
        "the tests check one network; the positions of the components along "
        "the spectrum differ for every complex"
    ),
    "files": ["pytspl/filters/base_filter.py"],
    "mechanism": [
        {"name": "operator choice", "where": "BaseFilter.get_p_matrix"},
        {"name": "ideal response", "where": "BaseFilter.get_component_coefficients"},
        {
            "name": "spectral bounds",
            "where": "BaseFilter.get_largest_eigenvalue, power_iteration",
        },
        {"name": "true component", "where": "BaseFilter.get_true_signal"},
        {
            "name": "error and target",
            "where": "BaseFilter.calculate_error_NRMSE, logistic_function",
        },
    ],
}
RULE = (
    "random complex, two flows, cut-off and steepness; oracle: reference "
    "Laplacians, projectors and labelled spectrum; positions are judged only "
    "where no gradient and curl frequency coincide; non-trivial = at least "
    "two components present and unambiguous"
)


@st.composite
def cases(draw, big=True):
    c = draw(
        gen.complex_flow(min_nodes=2, max_nodes=8, big=big, nonzero=True, flows=2)
    )
    if c["edges"] and draw(st.integers(0, 1)):
        y = draw(gen.akin(c["flow"]))
        c["flow2"] = y if any(y) else c["flow2"]
    c["cls"] = draw(
        st.sampled_from(
            [
                "LSFilterDesign",
                "GridBasedFilterDesign",
                "EdgeFlowDenoising",
                "ChebyshevFilterDesign",
            ]
        )
    )
    c["cut"] = draw(st.floats(-2.0, 8.0))
    c["steep"] = draw(st.integers(1, 200))
    c["power"] = draw(st.integers(1, 60))
    c["x"] = draw(st.lists(st.floats(-2.0, 8.0), min_size=1, max_size=6))
    c["bad"] = draw(st.sampled_from(["", "l1", "L1l", "L0", "Laplacian"]))
    c["badc"] = draw(st.sampled_from(["", "Gradient", "divergence", "harm"]))
    return c


def check(case, rec):
    from pytspl import filters

    sc = ref.build(case)
    fil = getattr(filters, case["cls"])(sc)
    f = ref.vec(case["flow"])
    g = ref.vec(case["flow2"])
    rec.label(case["cls"])
    for name, P in zip(("L1", "L1L", "L1U"), ref.laps(case)):
        ref.same(fil.get_p_matrix(name), P, f"operator {name}")
    ref.same(fil.get_p_matrix(), ref.laps(case)[0], "default operator")
    ref.raises(
        ValueError, lambda: fil.get_p_matrix(case["bad"]), f"{case['bad']!r}"
    )
    for name, P in zip(("L1", "L1L", "L1U"), ref.laps(case)):
        w, U = np.linalg.eigh(P)
        ref.same(
            fil.get_largest_eigenvalue(P.copy()),
            w[-1],
            f"largest eigenvalue of {name}",
            1e-9,
            max(1.0, w[-1]),
        )
        for k, args in ((case["power"], {"iterations": case["power"]}), (50, {})):
            if w[-1] < 1e-6:
                continue
            share = (np.maximum(w, 0.0) / w[-1]) ** k
            v = U @ (share * (U.T @ np.ones(len(P))))
            if np.linalg.norm(v) < 1e-6:
                continue
            rec.label("power iteration")
            got = fil.power_iteration(P.copy(), **args)
            ref.same(
                got,
                v / np.linalg.norm(v),
                f"{k} power iterations on {name}",
                1e-6,
            )
    s = max(1.0, float(np.max(np.abs(f))))
    u = ref.Unit(case)
    for name, P in zip(ref.COMPONENTS, ref.projectors(case)):
        ref.same(
            u.down(fil.get_true_signal(f=u.up(f), component=name)),
            P @ f,
            f"true {name} signal",
            1e-8,
            s,
        )
        ref.same(
            u.down(fil.get_true_signal(f=u.up(g), component=name)),
            P @ g,
            f"true {name} signal of the second flow",
            1e-8,
            max(s, float(np.max(np.abs(g)))),
        )
    ref.raises(
        ValueError,
        lambda: fil.get_true_signal(f=f, component=case["badc"]),
        f"component {case['badc']!r}",
    )
    ref.raises(
        ValueError,
        lambda: fil.get_component_coefficients(component=case["badc"]),
        f"component {case['badc']!r}",
    )
    e = fil.calculate_error_NRMSE(u.up(g, narrow=False), u.up(f))
    ref.same(e, ref.nrmse(g, f), "error", 1e-9, max(1.0, ref.nrmse(g, f)))
    ref.same(fil.calculate_error_NRMSE(f, f), 0.0, "error of the truth", 1e-12)
    t = fil.logistic_function(
        cut_off_frequency=case["cut"], steep=case["steep"]
    )
    x = np.array(sorted(case["x"]), float)
    y = ref.arr(t(x))
    want = 1 / (1 + np.exp(-case["steep"] * (x - case["cut"])))
    ref.same(y, want, "logistic target", 1e-9)
    ref.same(t(np.array([case["cut"]])), [0.5], "target at the cut-off", 1e-9)
    ref.need(np.all(np.diff(y) >= 0), "logistic target decreases")
    d = fil.logistic_function()
    ref.same(
        d(x), 1 / (1 + np.exp(-100 * (x - 0.01))), "default target", 1e-9
    )
    masks = []
    w = ref.spectrum(ref.operator(case, "L1"))
    if len(w) > 100 and np.any((w > 1e-9) & (w < 1.1e-3)):
        rec.label("frequencies below the default tolerance")
        return
    for name in ref.COMPONENTS:
        want = ref.component_mask(case, name)
        got = ref.arr(fil.get_component_coefficients(component=name))
        masks.append(got)
        if want is not None:
            ref.same(got, want, f"ideal coefficients of {name}", 1e-12)
            rec.mark(0 < np.sum(want) < len(want))
        else:
            rec.label("ambiguous")
            r = int(round(np.trace(ref.projectors(case)[ref.COMPONENTS.index(name)])))
            ref.need(
                sorted(got.tolist()) == [0.0] * (len(f) - r) + [1.0] * r,
                f"{name}: {got.tolist()} does not have {r} ones",
            )
    ref.same(sum(masks), np.ones(len(f)), "sum of the ideal coefficients")


def check_slow(case, rec):
    """Frequencies near 0.001, up to which they count as harmonic."""
    from pytspl.filters import LSFilterDesign

    fil = LSFilterDesign(ref.build(case))
    w = np.linalg.eigvalsh(ref.laps(case)[0])
    if np.any(np.abs(w - 1e-3) < 1e-7):
        raise Skip("a mode at the tolerance")
    zero = (w <= 1e-3).astype(float)
    for name, want in (
        ("harmonic", zero),
        ("gradient", 1 - zero),
        ("curl", 0 * zero),
    ):
        ref.same(
            fil.get_component_coefficients(component=name),
            want,
            f"ideal coefficients of {name}, slow modes",
            1e-12,
        )
    rec.mark()


CLAUSES = [
    Fixed("slow modes", gen.slow_cases, check_slow),
    Clause("building blocks", cases, check, 6000),
    Clause("large", lambda: cases(big="large-tame"), check, 160),
    Clause("huge", lambda: cases(big="huge300"), check, 16, seeded=True),
]
