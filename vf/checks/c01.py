"""C01 boundary structure of a complex."""

from itertools import combinations

import numpy as np
from vf import st

from vf import gen, ref
from vf.core import Clause

META = {
    "title": "Incidence matrices form an oriented chain complex",
    "statement": (
        "For every complex of nodes, directed edges and triangles, the "
        "node-edge incidence matrix has -1 at the tail and +1 at the head of "
        "each edge and the edge-triangle incidence matrix has +-1 exactly on "
        "the three edges of each triangle, with columns and rows in the order "
        "in which edges and triangles were given. The boundary of a boundary "
        "is zero whatever the direction in which the edges are stored and "
        "the order in which a triangle lists its nodes; a triangle whose "
        "edges are all stored along its node order (a,b,c) has signs +1, +1, "
        "-1 on (a,b), (b,c), (a,c). The reported shape, dimension, list of "
        "simplices and faces of a simplex agree with what the complex was "
        "built from, and a rank the complex does not have is rejected with a "
        "ValueError."
    ),
    "over": ["inputs"],
    "quantifier": (
        "every finite simplicial complex of dimension at most 2 on nodes "
        "0..n-1, every direction and order of its edges, every vertex order "
        "of its triangles"
    ),
    "why": (
        "the tests look at one 7-node network and one file whose edges all "
        "point the same way; sign consistency must hold for every mix of "
        "edge directions"
    ),
    "files": ["pytspl/simplicial_complex/simplicial_complex.py"],
    "mechanism": [
        {"name": "node-edge incidence", "where": "SimplicialComplex.edges_to_B1"},
        {
            "name": "edge-triangle incidence",
            "where": "SimplicialComplex.triangles_to_B2",
        },
        {
            "name": "rank dispatch and simplex listing",
            "where": "SimplicialComplex.incidence_matrix, shape, max_dim, simplices, get_faces",
        },
    ],
}
RULE = (
    "complexes drawn by construction: graph family or random edge subset, "
    "random edge directions and order, random subset of the 3-cliques in "
    "random vertex order; non-trivial = at least one triangle together with "
    "mixed or reversed edge directions, or isolated nodes"
)


@st.composite
def cases(draw, big=True):
    c = draw(gen.complexes(min_nodes=2, max_nodes=9, big=big))
    c["tri_kind"] = draw(st.sampled_from(["list", "tuple"]))
    return c


def check(case, rec):
    sc = ref.build(case)
    n, edges, tris = case["n"], case["edges"], case["tris"]
    up = [e[0] < e[1] for e in edges]
    used = {v for e in edges for v in e}
    if tris:
        rec.label("triangles")
    if any(up) and not all(up):
        rec.label("mixed directions")
    if len(used) < n:
        rec.label("isolated node")
    rec.mark((tris and not all(up)) or len(used) < n)

    B1 = ref.arr(sc.incidence_matrix(rank=1))
    ref.same(B1, ref.b1(case), "node-edge incidence", tol=0)
    B2 = ref.arr(sc.incidence_matrix(rank=2))
    want = ref.b2(case)
    ref.need(
        B2.shape == want.shape,
        f"edge-triangle incidence has shape {B2.shape}, not {want.shape}",
    )
    pos = {tuple(e) for e in edges}
    for t, (a, b, c) in enumerate(tris):
        along = {(a, b), (b, c), (a, c)} <= pos
        col = B2[:, t]
        ok = np.array_equal(col, want[:, t]) or (
            not along and np.array_equal(col, -want[:, t])
        )
        ref.need(
            ok,
            f"column of triangle {(a, b, c)} is {col.tolist()}, expected "
            f"{want[:, t].tolist()} for edges {edges}",
        )
    if B2.shape[1]:
        ref.need(
            not np.any(B1 @ B2), "the boundary of a boundary is not zero"
        )
    z = ref.arr(sc.incidence_matrix(rank=0))
    ref.same(z, np.ones(n), "incidence of rank 0", tol=0)
    ref.exact(tuple(sc.shape), (n, len(edges), len(tris)), "shape")
    ref.exact(sc.max_dim, 2 if tris else 1, "dimension")
    got = [tuple(s) for s in sc.simplices]
    want_s = (
        [(i,) for i in range(n)]
        + [tuple(e) for e in edges]
        + [tuple(t) for t in tris]
    )
    ref.exact(sorted(got), sorted(want_s), "simplices")
    if n < 3000:
        ref.same(sc.identity_matrix(), np.eye(n), "identity matrix", tol=0)
    for bad in (3, 4, -1):
        ref.raises(
            ValueError,
            lambda: sc.incidence_matrix(rank=bad),
            f"incidence matrix of rank {bad}",
        )


@st.composite
def spread_cases(draw):
    c = draw(gen.spread(draw(gen.complexes(min_nodes=4, max_nodes=9)), 70000))
    c["tri_kind"] = draw(st.sampled_from(["list", "tuple"]))
    return c


def check_nodes_only(case, rec):
    sc = ref.build({"n": case["n"], "edges": [], "tris": []})
    rec.mark(True)
    ref.exact(tuple(sc.shape), (case["n"], 0, 0), "shape of a node set")
    ref.exact(sc.max_dim, 0, "dimension of a node set")
    ref.exact(
        [tuple(s) for s in sc.simplices],
        [(i,) for i in range(case["n"])],
        "simplices of a node set",
    )


@st.composite
def simplex_cases(draw):
    k = draw(st.integers(2, 6))
    vs = draw(
        st.lists(st.integers(0, 40), min_size=k, max_size=k, unique=True)
    )
    return {"simplex": vs, "tuple": draw(st.booleans())}


def check_faces(case, rec):
    vs = case["simplex"]
    sc = ref.build({"n": 3, "edges": [[0, 1], [1, 2]], "tris": []})
    got = [
        tuple(f) for f in sc.get_faces(tuple(vs) if case["tuple"] else vs)
    ]
    want = sorted(combinations(sorted(vs), len(vs) - 1))
    rec.mark(vs != sorted(vs))
    ref.exact(sorted(got), want, f"faces of {vs}")
    ref.exact(got, sorted(got), f"order of the faces of {vs}")


CLAUSES = [
    Clause("boundary", cases, check, 4000),
    Clause(
        "nodes-only",
        lambda: st.builds(lambda n: {"n": n}, st.integers(1, 30)),
        check_nodes_only,
        40,
        100,
    ),
    Clause("faces", simplex_cases, check_faces, 1200),
    Clause("large", lambda: cases(big="large"), check, 160),
    Clause("huge", lambda: cases(big="huge1500"), check, 24, seeded=True),
    Clause("node numbers", spread_cases, check, 160),
]
