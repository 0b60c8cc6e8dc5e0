"""C02 adjacency and Laplacians."""

import numpy as np
from vf import st

from vf import gen, ref
from vf.core import Clause

META = {
    "title": "Adjacency and Hodge Laplacians have their defining structure",
    "statement": (
        "For every complex the adjacency matrix is the symmetric 0/1 matrix of "
        "its undirected edges and the graph Laplacian is degree minus "
        "adjacency; the lower and upper Laplacians of each rank are the "
        "products of the incidence matrices that define them, and the Hodge "
        "Laplacian of rank 0, 1 or 2 is the sum of the two parts that exist. "
        "All are symmetric positive semidefinite, the lower and upper edge "
        "Laplacians annihilate each other, and their kernels count connected "
        "components and holes. A rank for which an operator is not defined is "
        "rejected with a ValueError."
    ),
    "over": ["inputs"],
    "quantifier": "every complex and every rank argument",
    "why": (
        "the tests compare with stored matrices of one network; the algebraic "
        "identities must hold for every complex, including disconnected ones, "
        "ones without triangles and ones with mixed edge directions"
    ),
    "files": ["pytspl/simplicial_complex/simplicial_complex.py"],
    "mechanism": [
        {"name": "adjacency", "where": "SimplicialComplex.adjacency_matrix"},
        {
            "name": "Laplacians",
            "where": "SimplicialComplex.laplacian_matrix, lower_/upper_/hodge_laplacian_matrix",
        },
    ],
}
RULE = (
    "random complexes; matrices compared entrywise with definitions computed "
    "by counting shared nodes and triangles; non-trivial = at least one "
    "triangle and at least two edges sharing a node"
)


def check(case, rec):
    sc = ref.build(case)
    n, edges, tris = case["n"], case["edges"], case["tris"]
    E = len(edges)
    rec.mark(len(tris) > 0)
    if tris:
        rec.label("triangles")
    else:
        rec.label("no triangle")
    if ref.components(case) > 1:
        rec.label("disconnected")

    A = np.zeros((n, n))
    for u, v in edges:
        A[u, v] = A[v, u] = 1
    ref.same(sc.adjacency_matrix(), A, "adjacency", tol=0)
    L0 = np.diag(A.sum(axis=0)) - A
    ref.same(sc.laplacian_matrix(), L0, "graph Laplacian", tol=1e-12)
    ref.same(
        sc.upper_laplacian_matrix(rank=0), L0, "upper Laplacian of rank 0"
    )
    ref.same(
        sc.hodge_laplacian_matrix(rank=0), L0, "Hodge Laplacian of rank 0"
    )

    # lower edge Laplacian by counting shared end points
    tail, head = (np.array([e[i] for e in edges]) for i in (0, 1))
    low = (
        np.equal.outer(head, head) * 1.0
        + np.equal.outer(tail, tail)
        - np.equal.outer(tail, head)
        - np.equal.outer(head, tail)
    )
    # upper edge Laplacian by common triangles and relative orientation
    cyc = []
    for a, b, c in tris:
        s = {(a, b): 1, (b, c): 1, (c, a): 1, (b, a): -1, (c, b): -1, (a, c): -1}
        cyc.append([s.get(tuple(e), 0) for e in edges])
    cyc = np.array(cyc, float).reshape(len(tris), E)
    up, down2 = cyc.T @ cyc, cyc @ cyc.T
    gl = ref.arr(sc.lower_laplacian_matrix(rank=1))
    gu = ref.arr(sc.upper_laplacian_matrix(rank=1))
    gh = ref.arr(sc.hodge_laplacian_matrix(rank=1))
    ref.same(gl, low, "lower edge Laplacian")
    ref.same(gu, up, "upper edge Laplacian")
    ref.same(gh, low + up, "Hodge Laplacian of rank 1")
    ref.same(sc.lower_laplacian_matrix(), low, "lower Laplacian (default)")
    ref.same(sc.upper_laplacian_matrix(), up, "upper Laplacian (default)")
    ref.same(sc.hodge_laplacian_matrix(), low + up, "Hodge (default)")
    ref.same(gl @ gu, np.zeros((E, E)), "lower times upper Laplacian")

    g2 = ref.arr(sc.lower_laplacian_matrix(rank=2))
    h2 = ref.arr(sc.hodge_laplacian_matrix(rank=2))
    ref.same(h2, g2, "Hodge Laplacian of rank 2")
    ref.need(g2.shape == down2.shape, f"shape of rank 2: {g2.shape}")
    if tris:
        # a triangle's own orientation is a convention: entries up to sign
        ref.same(np.abs(g2), np.abs(down2), "lower Laplacian of rank 2")
        B2 = ref.arr(sc.incidence_matrix(rank=2))
        ref.same(g2, B2.T @ B2, "rank 2 Laplacian from incidence")
    for m, name in ((L0, "L0"), (gl, "L1l"), (gu, "L1u"), (gh, "L1"), (g2, "L2")):
        if m.size:
            w = np.linalg.eigvalsh((m + m.T) / 2)
            ref.need(w[0] > -1e-8 * max(1, abs(w[-1])), f"{name} not PSD")
    ref.exact(
        n - ref.rank(ref.arr(sc.laplacian_matrix())),
        ref.components(case),
        "kernel of the graph Laplacian vs components",
    )
    holes = E - ref.rank(ref.b1(case)) - ref.rank(ref.b2(case))
    ref.exact(E - ref.rank(gh), holes, "kernel of the Hodge Laplacian")
    for bad in (0, 3, -1):
        ref.raises(
            ValueError,
            lambda: sc.lower_laplacian_matrix(rank=bad),
            f"lower Laplacian of rank {bad}",
        )
    for bad in (2, 3, -1):
        ref.raises(
            ValueError,
            lambda: sc.upper_laplacian_matrix(rank=bad),
            f"upper Laplacian of rank {bad}",
        )
    for bad in (3, -1, 7):
        ref.raises(
            ValueError,
            lambda: sc.hodge_laplacian_matrix(rank=bad),
            f"Hodge Laplacian of rank {bad}",
        )


@st.composite
def spread_cases(draw):
    return draw(gen.spread(draw(gen.complexes(min_nodes=4, max_nodes=9)), 1300))


CLAUSES = [
    Clause(
        "large",
        lambda: gen.complexes(big="large"),
        check,
        160,
    ),
    Clause(
        "laplacians",
        lambda: gen.complexes(min_nodes=2, max_nodes=8, big=True),
        check,
        2500,
    ),
    Clause("huge", lambda: gen.complexes(big="huge1000"), check, 24, seeded=True),
    Clause("node numbers", spread_cases, check, 32),
]
