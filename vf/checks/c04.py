"""C04 divergence, curl and total variance."""

import numpy as np
from vf import st

from vf import gen, ref
from vf.core import Clause

META = {
    "title": "Divergence and curl are net inflow and circulation",
    "statement": (
        "For every complex and flow, the divergence at a node is the flow on "
        "edges entering it minus the flow on edges leaving it, and the curl "
        "on a triangle is the signed circulation of the flow around it. The "
        "flow induced by a node potential has no curl, the flow induced by "
        "triangle weights has no divergence, divergence sums to zero over "
        "each connected component, and the total variance lists the "
        "variation of the graph Laplacian's eigenvectors, i.e. its "
        "eigenvalues."
    ),
    "over": ["inputs"],
    "quantifier": (
        "every complex, flow, node potential and triangle weight vector"
    ),
    "why": "the tests evaluate one flow on one network",
    "files": [
        "pytspl/simplicial_complex/simplicial_complex.py",
        "pytspl/decomposition/eigendecomposition.py",
    ],
    "mechanism": [
        {
            "name": "divergence, curl, total variance",
            "where": "decomposition.eigendecomposition.get_divergence, get_curl, get_total_variance",
        }
    ],
}
RULE = (
    "random complex, flow, potential and triangle weights; oracle: summation "
    "edge by edge and around each triangle; non-trivial = at least one "
    "triangle and a non-constant flow"
)


@st.composite
def cases(draw, big=True):
    c = draw(gen.complex_flow(min_nodes=2, max_nodes=8, big=big))
    c["pot"] = draw(gen.vectors(c["n"]))
    c["wt"] = draw(gen.vectors(len(c["tris"])))
    return c


def check(case, rec):
    sc = ref.build(case)
    n, edges, tris = case["n"], case["edges"], case["tris"]
    f = ref.vec(case["flow"])
    u = ref.Unit(case, wide=True)
    x = u.up(f)
    keep = x.copy()
    rec.mark(len(tris) > 0 and len(set(case["flow"])) > 1)
    if not tris:
        rec.label("no triangle")
    div = np.zeros(n)
    for y, (a, b) in zip(f, edges):
        div[b] += y
        div[a] -= y
    s = max(1.0, np.sum(np.abs(f)))
    gd = ref.arr(u.down(sc.get_divergence(x)))
    ref.same(gd, div, "divergence", scale=s, tol=1e-10)
    # component sums
    par = list(range(n))

    def find(x):
        while par[x] != x:
            x = par[x]
        return x

    for a, b in edges:
        par[find(a)] = find(b)
    sums = {}
    for i in range(n):
        r = find(i)
        sums[r] = sums.get(r, 0.0) + gd[i]
    for t in sums.values():
        ref.need(abs(t) <= 1e-8 * s, f"divergence of a component sums to {t}")

    val = {}
    for y, (a, b) in zip(f, edges):
        val[(a, b)] = y
        val[(b, a)] = -y
    gc = ref.arr(u.down(sc.get_curl(x)))
    ref.need(gc.shape == (len(tris),), f"curl has shape {gc.shape}")
    pos = {tuple(e) for e in edges}
    B2 = ref.arr(sc.incidence_matrix(rank=2))
    for t, (a, b, c) in enumerate(tris):
        circ = val[(a, b)] + val[(b, c)] + val[(c, a)]
        along = {(a, b), (b, c), (a, c)} <= pos
        ok = abs(gc[t] - circ) <= 1e-9 * s
        if not along:
            ok = ok or abs(gc[t] + circ) <= 1e-9 * s
        ref.need(ok, f"curl on {(a, b, c)} is {gc[t]}, circulation is {circ}")
    if tris:
        ref.same(gc, B2.T @ f, "curl vs triangle incidence", scale=s)

    p = np.array(case["pot"], dtype=float)
    grad = np.array([p[b] - p[a] for a, b in edges])
    ref.same(
        sc.get_curl(grad),
        np.zeros(len(tris)),
        "curl of a gradient",
        scale=max(1.0, np.sum(np.abs(p))),
    )
    w = np.array(case["wt"], dtype=float)
    if len(w):
        ref.same(
            sc.get_divergence(ref.b2(case) @ w),
            np.zeros(n),
            "divergence of a circulation",
            scale=max(1.0, np.sum(np.abs(w))),
        )
    ref.need(np.array_equal(keep, x), "the given flow was changed")
    if n > 3000:
        return
    L0 = ref.b1(case) @ ref.b1(case).T
    ref.same(
        np.sort(ref.arr(sc.get_total_variance())),
        np.linalg.eigvalsh(L0),
        "total variance",
        tol=1e-9,
    )


@st.composite
def spread_cases(draw):
    c = draw(gen.complex_flow(min_nodes=4, max_nodes=8))
    c["wt"] = draw(gen.vectors(len(c["tris"])))
    c = draw(gen.spread(c, draw(st.sampled_from([300, 70000]))))
    c["pot"] = [7 * (i % 5) for i in range(c["n"])]
    return c


CLAUSES = [
    Clause("div-curl", cases, check, 3000),
    Clause("large", lambda: cases(big="large"), check, 200),
    Clause("huge", lambda: cases(big="huge1500"), check, 24, seeded=True),
    Clause("node numbers", spread_cases, check, 80),
]
