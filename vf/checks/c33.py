"""C33 independence of unconnected parts (metamorphic)."""

import numpy as np

from vf import cheb, gen, ref, st
from vf.core import Clause

cheb.install()

META = {
    "title": "Unconnected parts of a complex are analysed independently",
    "statement": (
        "For every complex made of two parts that share no node, however "
        "their nodes, edges and triangles are interleaved in it, divergence, "
        "curl, shifts, Hodge components, low-pass denoising, the trend "
        "filter's operators and every Hodge kernel give on each part what "
        "they give for that part alone, with kernel entries of zero between "
        "the parts; the spectra and the triangles found by the builder are "
        "those of the parts together. For two copies of one complex this "
        "holds for polynomial, sampled and Chebyshev component extraction "
        "too."
    ),
    "over": ["inputs"],
    "quantifier": "every pair of complexes, interleaving, flow and options",
    "why": (
        "the tests use connected networks only; an index, mask or shared "
        "scale that mixes the parts is not seen"
    ),
    "files": [
        "pytspl/simplicial_complex/simplicial_complex.py",
        "pytspl/simplicial_complex/scbuilder.py",
        "pytspl/decomposition/hodge_decomposition.py",
        "pytspl/filters/edge_flow_denoising.py",
        "pytspl/filters/ls_filter_design.py",
        "pytspl/filters/grid_based_filter_design.py",
        "pytspl/filters/chebyshev_filter_design.py",
        "pytspl/hogde_gp/hodge_gp_trainer.py",
    ],
    "mechanism": [
        {"name": "block structure of the incidence matrices", "where": "SimplicialComplex"},
        {"name": "projections and filters on it", "where": "hodge_decomposition, filters"},
        {"name": "kernels on it", "where": "pytspl.hogde_gp.forex"},
    ],
}
RULE = (
    "two random complexes (or two copies of one), joined with random node "
    "numbers and random edge and triangle order; metamorphic oracle: the "
    "results for each part alone; non-trivial = both parts have an edge and "
    "one has a triangle"
)
ASSUMPTIONS = [
    "single precision kernels are compared to 2e-4 relative",
    "chebpy is not installed: a stand-in computes the coefficients",
]
KERNELS = ("diffusion", "diffusion_non_hc", "matern", "matern_non_hc", "laplacian")


@st.composite
def cases(draw, big=False):
    one = draw(gen.complex_flow(min_nodes=2, max_nodes=6, big=big, nonzero=True))
    twin = draw(st.integers(0, 2)) == 0
    two = draw(gen.complex_flow(min_nodes=2, max_nodes=6, big=big, nonzero=True))
    if twin:
        flow = draw(gen.vectors(len(one["edges"]), nonzero=True))
        two = dict(one, flow=flow)
    c = {"twin": twin, "parts": []}
    for p in (one, two):
        c["parts"].append({k: p[k] for k in ("n", "edges", "tris", "flow")})
    n, E, T = (
        sum(x) for x in zip(*((p["n"], len(p["edges"]), len(p["tris"])) for p in (one, two)))
    )
    c["names"] = draw(st.permutations(range(n)))
    c["eperm"] = draw(st.permutations(range(E)))
    c["tperm"] = draw(st.permutations(range(T)))
    c["k"] = draw(st.integers(0, 3))
    c["mu"] = draw(st.floats(0.05, 20.0))
    c["p"] = draw(st.sampled_from(["L1", "L1L", "L1U"]))
    c["order"] = draw(st.integers(0, 4))
    c["kernel"] = draw(st.sampled_from(KERNELS))
    c["L"] = draw(st.integers(1, 4))
    c["cut"] = draw(st.floats(0.01, 3.0))
    c["steep"] = draw(st.integers(1, 60))
    return c


def joined(case):
    """(the joint complex, per part the positions of its edges, triangles
    and nodes in it)."""
    nm = case["names"]
    edges, tris, where = [], [], []
    node = 0
    for p in case["parts"]:
        name = [nm[node + v] for v in range(p["n"])]
        where.append([len(edges), len(tris), name])
        edges += [[name[a], name[b]] for a, b in p["edges"]]
        tris += [[name[v] for v in t] for t in p["tris"]]
        node += p["n"]
    ep, tp = case["eperm"], case["tperm"]
    at_e = {j: i for i, j in enumerate(ep)}
    at_t = {j: i for i, j in enumerate(tp)}
    both = {
        "n": node,
        "edges": [edges[j] for j in ep],
        "tris": [tris[j] for j in tp],
    }
    pos = []
    for p, (e0, t0, name) in zip(case["parts"], where):
        pos.append(
            (
                [at_e[e0 + i] for i in range(len(p["edges"]))],
                [at_t[t0 + i] for i in range(len(p["tris"]))],
                name,
            )
        )
    return both, pos


def kernel(sc, E, name):
    """The kernel's matrix over all edges."""
    import torch
    from pytspl.hogde_gp import HodgeGPTrainer
    from pytspl.hogde_gp.kernel_serializer import KernelSerializer

    pairs = HodgeGPTrainer(sc=sc, y=np.zeros(E)).get_eigenpairs()
    k = KernelSerializer().serialize(
        eigenpairs=pairs, kernel_type=name, data_name="forex"
    )
    x = torch.arange(E).float().unsqueeze(-1)
    return k(x, x).to_dense().detach().numpy().astype(float)


def extractions(sc, case, f):
    from pytspl.filters import (
        ChebyshevFilterDesign,
        GridBasedFilterDesign,
        LSFilterDesign,
    )

    L = case["L"]
    a = LSFilterDesign(sc)
    a.subcomponent_extraction_type_one(f=f, component="gradient", L=L)
    yield "type one", a.history["f_estimated"]
    for comp in ("gradient", "curl"):
        a = LSFilterDesign(sc)
        a.subcomponent_extraction_type_two(f=f, component=comp, L=L)
        yield f"type two, {comp}", a.history["f_estimated"]
    kw = dict(cut_off_frequency=case["cut"], steep=case["steep"])
    kw.update(component="gradient", p_choice="L1L", L=L)
    a = GridBasedFilterDesign(sc)
    a.subcomponent_extraction(f=f, num_of_samples=15, **kw)
    yield "grid", a.history["f_estimated"]
    a = ChebyshevFilterDesign(sc)
    a.apply(f=f, n=12, **kw)
    yield "Chebyshev", np.asarray(a.history["f_estimated"])[-1]


def check(case, rec):
    from pytspl.filters import EdgeFlowDenoising, SimplicialTrendFilter
    from pytspl.simplicial_complex.scbuilder import SCBuilder

    both, pos = joined(case)
    parts = case["parts"]
    E = len(both["edges"])
    f = np.zeros(E)
    for p, (ie, _, _) in zip(parts, pos):
        f[ie] = p["flow"]
    s = max(1.0, float(np.abs(f).max()))
    A = ref.build(both)
    B = [ref.build(p) for p in parts]
    flows = [f[ie] for ie, _, _ in pos]
    rec.mark(len(both["tris"]))
    rec.label("copies" if case["twin"] else "different parts")

    def each(fn, what, index=0, tol=1e-9, scale=s):
        whole = np.asarray(ref.arr(fn(A, f)), float)
        for sc, g, ix in zip(B, flows, pos):
            own = np.asarray(ref.arr(fn(sc, g)), float)
            ref.same(whole[ix[index]], own, f"{what} on a part", tol, scale)

    wide = s * 20
    each(lambda sc, g: sc.get_divergence(g), "divergence", 2, scale=wide)
    each(lambda sc, g: sc.get_curl(g), "curl", 1, scale=wide)
    k = case["k"]
    for name in ("lower", "upper", "k_step"):
        each(
            lambda sc, g: getattr(sc, f"apply_{name}_shifting")(g, steps=k),
            f"{name} shift",
            scale=s * case.get("norm", 40.0) ** k,
        )
    for comp in ref.COMPONENTS:
        each(
            lambda sc, g: sc.get_component_flow(g, component=comp, round_fig=False),
            f"{comp} component",
        )
        got = np.sort(ref.arr(A.get_component_eigenpair(component=comp)[1]))
        want = [ref.arr(sc.get_component_eigenpair(component=comp)[1]) for sc in B]
        ref.same(got, np.sort(np.concatenate(want)), f"{comp} spectrum", 1e-8)

    def denoised(sc, g):
        fil = EdgeFlowDenoising(sc)
        fil.denoise(f=g, f_true=g, p_choice=case["p"], mu_vals=[case["mu"]])
        return fil.history["f_estimated"]

    each(denoised, "denoised flow")
    for comp in ("divergence", "curl"):
        ops = [
            SimplicialTrendFilter(sc).get_shift_operator(comp, case["order"]).toarray()
            for sc in [A] + B
        ]
        size = 10.0 + max(float(np.abs(m).max(initial=0)) for m in ops)
        for op, (ie, it, name) in zip(ops[1:], pos):
            rows = ie if case["order"] % 2 else (name if comp == "divergence" else it)
            ref.same(ops[0][np.ix_(rows, ie)], op, f"{comp} operator", 1e-12, size)
    got = SCBuilder(
        nodes=list(range(both["n"])), edges=[tuple(e) for e in both["edges"]]
    ).to_simplicial_complex()
    want = []
    for p, (_, _, name) in zip(parts, pos):
        alone = SCBuilder(
            nodes=list(range(p["n"])), edges=[tuple(e) for e in p["edges"]]
        ).to_simplicial_complex()
        want += [sorted(name[v] for v in t) for t in alone.triangles]
    ref.exact(
        sorted(sorted(t) for t in got.triangles), sorted(want), "triangles found"
    )
    K = kernel(A, E, case["kernel"])
    size = max(1e-3, float(np.abs(K).max()))
    ie, je = pos[0][0], pos[1][0]
    ref.same(
        K[np.ix_(ie, je)],
        np.zeros((len(ie), len(je))),
        f"{case['kernel']} kernel between the parts",
        2e-4,
        size,
    )
    for sc, g, ix in zip(B, flows, pos):
        ref.same(
            K[np.ix_(ix[0], ix[0])],
            kernel(sc, len(g), case["kernel"]),
            f"{case['kernel']} kernel on a part",
            2e-4,
            size,
        )
    if case["twin"]:
        whole = dict(extractions(A, case, f))
        for sc, g, ix in zip(B, flows, pos):
            for name, own in extractions(sc, case, g):
                ref.same(
                    ref.arr(whole[name])[ix[0]],
                    own,
                    f"{name} extraction on a part",
                    1e-6,
                    s * E,
                )


@st.composite
def unequal_cases(draw):
    """A long thin part, with slow modes, and one with a hub."""
    c = draw(cases())
    n, m = draw(st.integers(30, 60)), draw(st.integers(60, 150))
    thin = [(i, i + 1) for i in range(n - 1)]
    tris = []
    if draw(st.booleans()):
        thin = sorted(thin + [(i, i + 2) for i in range(n - 2)])
        tris = [[i, i + 1, i + 2] for i in range(n - 2)]
    hub = [(0, i) for i in range(1, m)] + [(1, 2)]
    c["parts"] = [
        {"n": n, "edges": [list(e) for e in thin], "tris": tris},
        {"n": m, "edges": [list(e) for e in hub], "tris": [[0, 1, 2]]},
    ]
    for p in c["parts"]:
        p["flow"] = draw(gen.vectors(len(p["edges"]), nonzero=True))
    if draw(st.booleans()):
        c["parts"].reverse()
    for key, what in (("names", "n"), ("eperm", "edges"), ("tperm", "tris")):
        sizes = [p[what] if what == "n" else len(p[what]) for p in c["parts"]]
        c[key] = draw(st.permutations(range(sum(sizes))))
    c["norm"] = 2.0 * m
    c["twin"] = False
    return c


CLAUSES = [
    Clause("parts", cases, check, 1600),
    Clause("large", lambda: cases(big="large-tame"), check, 48, seeded=True),
    Clause("unequal", unequal_cases, check, 80, seeded=True),
]
