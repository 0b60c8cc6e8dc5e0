"""C05 Hodge decomposition."""

import numpy as np
from vf import st

from vf import gen, ref
from vf.core import Clause

META = {
    "title": "Hodge decomposition splits every flow exactly and orthogonally",
    "statement": (
        "For every complex and flow, the gradient, curl and harmonic "
        "components are the orthogonal projections onto node-potential flows, "
        "triangle circulations and the flows that have neither divergence nor "
        "curl; they are mutually orthogonal and sum to the flow, and "
        "decomposing a component again returns it unchanged. Rounding, when "
        "requested (two decimals unless told otherwise), only rounds the "
        "result to the requested number of decimals and is otherwise absent; "
        "a component name other than gradient, curl or harmonic is rejected "
        "with a ValueError."
    ),
    "over": ["inputs"],
    "quantifier": "every complex, flow, component and rounding request",
    "why": (
        "the tests compare two-decimal values on one network; exactness and "
        "orthogonality are claims about every complex and flow"
    ),
    "files": [
        "pytspl/decomposition/hodge_decomposition.py",
        "pytspl/simplicial_complex/simplicial_complex.py",
    ],
    "mechanism": [
        {
            "name": "least-squares projections",
            "where": "decomposition.hodge_decomposition.get_gradient_flow, get_curl_flow, get_harmonic_flow",
        },
        {
            "name": "dispatch and rounding",
            "where": "SimplicialComplex.get_component_flow",
        },
    ],
}
RULE = (
    "random complex, flow, decimals 0..5; oracle: projectors by singular "
    "value decomposition of reference incidence matrices; non-trivial = all "
    "three components of the flow are non-zero, or harmonic non-zero"
)
COMPS = ("gradient", "curl", "harmonic")


@st.composite
def cases(draw, big=True):
    c = draw(gen.complex_flow(min_nodes=2, max_nodes=8, big=big))
    c["digits"] = draw(
        st.integers(0, 5)
        if draw(st.integers(0, 5))
        else st.sampled_from([6, 7, 8, -1, -2])
    )
    c["bad"] = draw(
        st.sampled_from(["", "grad", "Gradient", "divergence", "HARMONIC", "x"])
    )
    return c


def check(case, rec):
    sc = ref.build(case)
    f = ref.vec(case["flow"])
    u = ref.Unit(case, wide=True)
    x = u.up(f)
    keep = x.copy()
    P = dict(zip(COMPS, ref.projectors(case)))
    s = max(1.0, np.max(np.abs(f), initial=0.0))
    got = {}
    big = 0
    for c in COMPS:
        out = sc.get_component_flow(x, component=c, round_fig=False)
        got[c] = ref.arr(u.down(out))
        want = P[c] @ f
        ref.same(got[c], want, f"{c} component", scale=s, tol=1e-8)
        if np.max(np.abs(want), initial=0) > 1e-6 * s:
            big += 1
            rec.label(f"has {c}")
    rec.mark(big == 3 or "has harmonic" in rec.labels)
    ref.same(
        got["gradient"] + got["curl"] + got["harmonic"],
        f,
        "sum of the components",
        scale=s,
        tol=1e-8,
    )
    for a, b in (("gradient", "curl"), ("gradient", "harmonic"), ("curl", "harmonic")):
        ip = float(got[a] @ got[b])
        ref.need(
            abs(ip) <= 1e-8 * s * s * len(f),
            f"{a} and {b} are not orthogonal: {ip}",
        )
    for c in COMPS:
        for d in COMPS:
            again = sc.get_component_flow(
                u.up(got[c].copy()), component=d, round_fig=False
            )
            ref.same(
                u.down(again),
                got[c] if c == d else np.zeros(len(f)),
                f"{d} component of the {c} component",
                scale=s,
                tol=1e-8,
            )
    # rounding
    r = case["digits"]
    if u.u < 1:
        r += 12  # the values lie about 12 digits further down
    for c in COMPS:
        for digits, out in (
            (r, sc.get_component_flow(x, c, True, r)),
            (r, sc.get_component_flow(x, component=c, round_sig_fig=r)),
            (2, sc.get_component_flow(x, component=c)),
        ):
            out = ref.arr(out)
            unit = 10.0**-digits
            ref.need(out.shape == f.shape, f"rounded {c}: shape {out.shape}")
            ref.need(
                np.all(
                    np.abs(out - got[c] * u.u) <= 0.5 * unit + 1e-8 * s * u.u
                ),
                f"rounding {c} to {digits} decimals moved a value: "
                f"{(got[c] * u.u).tolist()} -> {out.tolist()}",
            )
            q = out / unit
            ref.need(
                np.all(np.abs(q - np.round(q)) <= 1e-6 * np.maximum(1, np.abs(q))),
                f"{c} is not rounded to {digits} decimals: {out.tolist()}",
            )
    ref.same(
        u.down(sc.get_component_flow(x, round_fig=False)),
        got["gradient"],
        "default component",
        scale=s,
        tol=1e-8,
    )
    ref.raises(
        ValueError,
        lambda: sc.get_component_flow(x, component=case["bad"]),
        f"component {case['bad']!r}",
    )
    ref.need(np.array_equal(keep, x), "the given flow was changed")


@st.composite
def module_cases(draw):
    c = draw(gen.complex_flow(min_nodes=2, max_nodes=7))
    c["digits"] = draw(st.integers(0, 4))
    return c


def check_module(case, rec):
    """The decomposition module used directly on incidence matrices."""
    from scipy.sparse import csr_matrix

    from pytspl.decomposition import hodge_decomposition as hd

    B1 = csr_matrix(ref.b1(case))
    B2 = csr_matrix(ref.b2(case))
    f = ref.vec(case["flow"])
    pg, pc, ph = ref.projectors(case)
    s = max(1.0, np.max(np.abs(f), initial=0.0))
    rec.mark(len(case["tris"]) > 0 and np.max(np.abs(ph @ f), initial=0) > 1e-6)
    for name, P, fn in (
        ("gradient", pg, lambda **k: hd.get_gradient_flow(B1=B1, flow=f, **k)),
        ("curl", pc, lambda **k: hd.get_curl_flow(B2=B2, flow=f, **k)),
        (
            "harmonic",
            ph,
            lambda **k: hd.get_harmonic_flow(B1=B1, B2=B2, flow=f, **k),
        ),
    ):
        ref.same(fn(round_fig=False), P @ f, f"module {name}", scale=s, tol=1e-8)
        for d, out in (
            (case["digits"], fn(round_sig_fig=case["digits"])),
            (2, fn()),
            (2, fn(round_fig=True)),
        ):
            ref.need(
                np.all(np.abs(ref.arr(out) - P @ f) <= 0.5 * 10.0**-d + 1e-8 * s),
                f"module {name}: rounding to {d} decimals moved a value",
            )
            q = ref.arr(out) * 10.0**d
            ref.need(
                np.all(np.abs(q - np.round(q)) <= 1e-6 * np.maximum(1, abs(q))),
                f"module {name}: {out.tolist()} is not rounded to {d} decimals",
            )


CLAUSES = [
    Clause("decomposition", cases, check, 2000),
    Clause("module", module_cases, check_module, 700),
    Clause("large", lambda: cases(big="large"), check, 160),
    Clause("huge", lambda: cases(big="huge"), check, 24, seeded=True),
]
