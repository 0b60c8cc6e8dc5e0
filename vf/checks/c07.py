"""C07 independence of arbitrary choices (metamorphic)."""

import numpy as np

from vf import cheb, gen, ref, st
from vf.core import Clause

cheb.install()

META = {
    "title": "Results do not depend on edge direction, order or node naming",
    "statement": (
        "Re-describing the same complex - reversing the stored direction of "
        "some edges (negating the flow on them), reordering edges and "
        "triangles, listing triangle nodes in another order, or renaming "
        "nodes - changes the results only by the same re-description. This "
        "holds for divergence, curl magnitude, the three Hodge components, "
        "the spectra, the energy of the embeddings, shifts, low-pass "
        "denoising, component extraction by every filter design, the trend "
        "filter's operators and the Hodge kernels."
    ),
    "over": ["inputs"],
    "quantifier": (
        "every complex, flow and change of edge directions, edge and triangle "
        "order, triangle vertex order and node names"
    ),
    "why": (
        "the tests use networks whose edges all point the same way, in one "
        "order; they never compare two descriptions of one network"
    ),
    "files": [
        "pytspl/simplicial_complex/simplicial_complex.py",
        "pytspl/decomposition/hodge_decomposition.py",
        "pytspl/filters/edge_flow_denoising.py",
        "pytspl/filters/ls_filter_design.py",
        "pytspl/filters/grid_based_filter_design.py",
        "pytspl/filters/chebyshev_filter_design.py",
        "pytspl/filters/simplicial_trend_filter.py",
        "pytspl/hogde_gp/kernel_serializer.py",
    ],
    "mechanism": [
        {
            "name": "orientation-consistent incidence matrices",
            "where": "SimplicialComplex.edges_to_B1, triangles_to_B2",
        },
        {
            "name": "operators derived from them",
            "where": "SimplicialComplex, filters",
        },
    ],
}
RULE = (
    "random complex and flow plus a random re-description; metamorphic oracle "
    "(result of the re-described complex against the re-described result); "
    "non-trivial = a direction is reversed and there is a triangle"
)


ASSUMPTIONS = [
    "single precision kernels are compared to 2e-4 relative",
    "chebpy is not installed: a stand-in computes the coefficients",
]
KERNELS = ("diffusion", "diffusion_non_hc", "matern", "matern_non_hc", "laplacian")


@st.composite
def cases(draw, big=True):
    c = draw(gen.complex_flow(min_nodes=2, max_nodes=7, big=big))
    E, T = len(c["edges"]), len(c["tris"])
    c["flip"] = gen.bits(draw, E, "half")
    c["eperm"] = draw(st.permutations(range(E)))
    c["tperm"] = draw(st.permutations(range(T)))
    c["vperm"] = [draw(st.integers(0, 5)) for _ in range(T)]
    c["names"] = (
        draw(st.permutations(range(c["n"])))
        if draw(st.booleans())
        else list(range(c["n"]))
    )
    c["mu"] = draw(st.floats(0.1, 5.0))
    c["L"] = draw(st.integers(1, 4))
    c["more"] = draw(
        st.sampled_from(["", "grid", "chebyshev", "trend"] + list(KERNELS))
    )
    c["cut"] = draw(st.floats(0.01, 3.0))
    c["steep"] = draw(st.integers(1, 60))
    c["p"] = draw(st.sampled_from(["L1", "L1L", "L1U"]))
    return c


def kernel(sc, E, name):
    """The kernel's matrix over all edges."""
    import torch
    from pytspl.hogde_gp import HodgeGPTrainer
    from pytspl.hogde_gp.kernel_serializer import KernelSerializer

    pairs = HodgeGPTrainer(sc=sc, y=np.zeros(E)).get_eigenpairs()
    k = KernelSerializer().serialize(
        eigenpairs=pairs, kernel_type=name, data_name="forex"
    )
    x = torch.arange(E).float().unsqueeze(-1)
    return k(x, x).to_dense().detach().numpy().astype(float)


def check_more(case, rec, A, B, f, g, move, sign):
    from pytspl.filters import (
        ChebyshevFilterDesign,
        GridBasedFilterDesign,
        SimplicialTrendFilter,
    )

    kind, ep, E = case["more"], case["eperm"], len(f)
    if kind:
        rec.label(kind)
    s = max(1.0, float(np.abs(f).max()))
    if kind in KERNELS:
        K, K2 = kernel(A, E, kind), kernel(B, E, kind)
        ref.same(
            K2,
            np.outer(sign, sign) * K[np.ix_(ep, ep)],
            f"{kind} kernel after re-description",
            2e-4,
            max(1e-3, float(np.abs(K).max())),
        )
    elif kind == "trend":
        # its rows are edges for odd orders, else nodes or triangles
        for k in range(4):
            for comp in ("divergence", "curl"):
                m1, m2 = (
                    np.abs(SimplicialTrendFilter(x).get_shift_operator(comp, k) @ y)
                    for x, y in ((A, f), (B, g))
                )
                at = ep if k % 2 else case["tperm"]
                if k % 2 == 0 and comp == "divergence":
                    m2, at = m2[case["names"]], range(case["n"])
                ref.same(
                    m2,
                    m1[list(at)] if len(m1) else m1,
                    f"order {k} {comp} after re-description",
                    1e-9,
                    max(s, float(np.max(m1, initial=0))),
                )
    elif kind and not (kind == "chebyshev" and case["p"] == "L1U" and not case["tris"]):
        out = []
        for sc, v in ((A, f), (B, g)):
            kw = {"component": "gradient", "p_choice": case["p"], "L": case["L"]}
            kw.update(cut_off_frequency=case["cut"], steep=case["steep"])
            if kind == "grid":
                fil = GridBasedFilterDesign(sc)
                fil.subcomponent_extraction(f=v, num_of_samples=16, **kw)
                out.append(ref.arr(fil.history["f_estimated"]))
            else:
                fil = ChebyshevFilterDesign(sc)
                fil.apply(f=v, n=14, **kw)
                out.append(ref.arr(fil.history["f_estimated"])[-1])
        ref.same(out[1], move(out[0]), f"{kind} after re-description", 1e-6, s * E)


ORD = [(0, 1, 2), (0, 2, 1), (1, 0, 2), (1, 2, 0), (2, 0, 1), (2, 1, 0)]


def check(case, rec):
    from pytspl.filters import EdgeFlowDenoising, LSFilterDesign

    nm, ep = case["names"], case["eperm"]
    edges2, sign = [], []
    for j in ep:
        a, b = (nm[x] for x in case["edges"][j])
        if case["flip"][j]:
            a, b = b, a
        edges2.append([a, b])
        sign.append(-1.0 if case["flip"][j] else 1.0)
    tris2 = []
    for t in case["tperm"]:
        v = [nm[x] for x in case["tris"][t]]
        o = ORD[case["vperm"][t]]
        tris2.append([v[o[0]], v[o[1]], v[o[2]]])
    other = {"n": case["n"], "edges": edges2, "tris": tris2}
    sign = np.array(sign)
    f = ref.vec(case["flow"])
    s = max(1.0, float(np.max(np.abs(f), initial=0)))

    def move(x):
        return sign * np.asarray(x, dtype=float)[ep]

    rec.mark(any(case["flip"]) and len(tris2) > 0)
    if tris2:
        rec.label("triangles")
    if nm != sorted(nm):
        rec.label("renamed")
    A, B = ref.build(case), ref.build(other)
    g = move(f)
    d1, d2 = ref.arr(A.get_divergence(f)), ref.arr(B.get_divergence(g))
    ref.same(d2[nm], d1, "divergence after re-description", scale=s * 10)
    c1, c2 = ref.arr(A.get_curl(f)), ref.arr(B.get_curl(g))
    ref.same(
        np.abs(c2),
        np.abs(c1)[case["tperm"]],
        "curl magnitude after re-description",
        scale=s * 10,
    )
    for comp in ("gradient", "curl", "harmonic"):
        x = A.get_component_flow(f, component=comp, round_fig=False)
        y = B.get_component_flow(g, component=comp, round_fig=False)
        ref.same(
            y, move(x), f"{comp} component after re-description", 1e-8, s
        )
        _, w1 = A.get_component_eigenpair(component=comp)
        _, w2 = B.get_component_eigenpair(component=comp)
        ref.same(
            np.sort(ref.arr(w2)), np.sort(ref.arr(w1)), f"{comp} spectrum", 1e-9
        )
    for k, (e1, e2) in enumerate(
        zip(A.get_simplicial_embeddings(f), B.get_simplicial_embeddings(g))
    ):
        a, b = float(np.sum(ref.arr(e1) ** 2)), float(np.sum(ref.arr(e2) ** 2))
        ref.need(
            abs(a - b) <= 1e-9 * max(1.0, float(f @ f)),
            f"embedding energy {k}: {a} and {b}",
        )
    big = s * 400
    for name in ("apply_lower_shifting", "apply_upper_shifting"):
        ref.same(
            getattr(B, name)(g, steps=2),
            move(getattr(A, name)(f, steps=2)),
            f"{name} after re-description",
            1e-8,
            big,
        )
    ref.same(
        B.apply_k_step_shifting(g),
        move(A.apply_k_step_shifting(f)),
        "k-step shift after re-description",
        1e-8,
        big,
    )
    if not np.any(f):
        return
    check_more(case, rec, A, B, f, g, move, sign)
    fa, fb = EdgeFlowDenoising(A), EdgeFlowDenoising(B)
    fa.denoise(f=f, f_true=f, p_choice=case["p"], mu_vals=[case["mu"]])
    fb.denoise(f=g, f_true=g, p_choice=case["p"], mu_vals=[case["mu"]])
    ref.same(
        fb.history["f_estimated"],
        move(fa.history["f_estimated"]),
        "denoised flow after re-description",
        1e-8,
        s,
    )
    for comp in ("gradient", "curl"):
        la, lb = LSFilterDesign(A), LSFilterDesign(B)
        la.subcomponent_extraction_type_two(f=f, component=comp, L=case["L"])
        lb.subcomponent_extraction_type_two(f=g, component=comp, L=case["L"])
        ref.same(
            lb.history["f_estimated"],
            move(la.history["f_estimated"]),
            f"extracted {comp} after re-description",
            1e-6,
            s * max(1.0, float(np.max(np.abs(ref.arr(la.history["filter"]))))),
        )


CLAUSES = [
    Clause("redescribe", cases, check, 2400),
    Clause("large", lambda: cases(big="large-tame"), check, 120),
    Clause("huge", lambda: cases(big="huge200"), check, 16, seeded=True),
]
