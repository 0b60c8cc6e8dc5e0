"""C11 reading incidence matrices."""

import os
import tempfile

import numpy as np

from vf import gen, ref, st
from vf.core import Clause

META = {
    "title": "Incidence-matrix files round-trip to the complex they describe",
    "statement": (
        "Writing the node-edge and the (transposed) edge-triangle incidence "
        "matrices of any complex with at least one triangle to files and "
        "reading them back gives its nodes, its edges with their directions "
        "in ascending order, and exactly its triangles, whatever the column "
        "and row order, edge directions and signs in the files. The complex "
        "built from them has the original incidence matrices up to edge and "
        "triangle order and triangle orientation."
    ),
    "over": ["inputs"],
    "quantifier": "every complex with a triangle, column order and direction",
    "why": (
        "the tests read matrices whose columns are already sorted; the "
        "triangles of other files depend on the column order"
    ),
    "files": ["pytspl/io/network_reader.py"],
    "mechanism": [
        {"name": "edges from node-edge columns", "where": "network_reader.read_B1_B2"},
        {"name": "triangles from edge-triangle rows", "where": "network_reader.read_B2"},
    ],
}
RULE = (
    "random complexes with a triangle, random column order and directions, "
    "integer or decimal notation; round-trip oracle; non-trivial = columns "
    "not sorted"
)


@st.composite
def cases(draw, big=True):
    c = draw(gen.complexes(min_nodes=3, max_nodes=9, big=big, need_tri=True))
    c["fmt"] = draw(st.sampled_from(["int", "float"]))
    c["flip"] = gen.bits(draw, len(c["tris"]), "half")
    # the files know a node only by its edges: keep the last one connected
    top = max(max(e) for e in c["edges"])
    c["n"] = top + 1
    return c


def check(case, rec):
    from pytspl import read_B1_B2
    from pytspl.io.network_reader import read_B2

    m1 = ref.b1(case)
    m2 = ref.b2(case) * np.where(case["flip"], -1.0, 1.0)
    fmt = "%d" if case["fmt"] == "int" else "%.1f"
    tmp = tempfile.mkdtemp(prefix="vf-")
    p1, p2 = os.path.join(tmp, "b1.csv"), os.path.join(tmp, "b2t.csv")
    try:
        np.savetxt(p1, m1, fmt=fmt, delimiter=",")
        np.savetxt(p2, m2.T, fmt=fmt, delimiter=",")
        builder, tris = read_B1_B2(p1, p2)
        direct = read_B2(p2, np.asarray(case["edges"]))
    finally:
        for p in (p1, p2):
            if os.path.exists(p):
                os.unlink(p)
        os.rmdir(tmp)
    edges = sorted(tuple(e) for e in case["edges"])
    want = sorted(tuple(sorted(t)) for t in case["tris"])
    ref.exact([int(v) for v in builder.nodes], list(range(case["n"])), "nodes")
    ref.exact([tuple(int(v) for v in e) for e in builder.edges], edges, "edges")
    for t, what in ((tris, "triangles"), (direct, "triangles of the matrix alone")):
        ref.exact(sorted(tuple(sorted(int(v) for v in x)) for x in t), want, what)
    sc = builder.to_simplicial_complex(triangles=tris)
    order = sorted(range(len(edges)), key=lambda j: tuple(case["edges"][j]))
    ref.same(sc.incidence_matrix(1), m1[:, order], "node-edge matrix")
    got = ref.arr(sc.incidence_matrix(2))
    cols = m2[order, :]
    used = set()
    for j in range(got.shape[1]):
        hit = [
            k
            for k in range(cols.shape[1])
            if k not in used
            and (
                np.array_equal(got[:, j], cols[:, k])
                or np.array_equal(got[:, j], -cols[:, k])
            )
        ]
        ref.need(bool(hit), f"column {got[:, j].tolist()} is not in the file")
        used.add(hit[0])
    rec.mark([tuple(e) for e in case["edges"]] != edges)


CLAUSES = [
    Clause("round trip", cases, check, 8000),
    Clause("huge", lambda: cases(big="huge500"), check, 24, seeded=True),
]
