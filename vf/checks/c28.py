"""C28 queries on a complex: faces, features, names, coordinates, summary."""

import contextlib
import io
import re
from itertools import combinations

import numpy as np

from vf import gen, ref, st
from vf.core import Clause

META = {
    "title": "Faces, features, names, coordinates and summary describe the complex",
    "statement": (
        "For every simplex with at least two nodes, in any node order, the "
        "faces are all its subsets with one node less, each once, sorted, in "
        "ascending order. For every complex, node and edge features are "
        "returned per node and per edge as given, one named edge feature maps "
        "every edge to its own value, the feature names are those of the "
        "edges (none without features), and asking for a missing name is "
        "rejected with a KeyError. Generated coordinates give every node, "
        "isolated ones included, one finite position in the plane, and the "
        "printed summary states the true counts, shape and dimension."
    ),
    "over": ["inputs"],
    "quantifier": "every simplex, complex and feature table",
    "why": (
        "the tests query one network with one feature; permuted nodes, "
        "several features, falsy values and isolated nodes are not sampled"
    ),
    "files": ["pytspl/simplicial_complex/simplicial_complex.py"],
    "mechanism": [
        {"name": "faces", "where": "SimplicialComplex.get_faces"},
        {
            "name": "features",
            "where": "SimplicialComplex.get_edge_features, get_node_features, edge_feature_names",
        },
        {
            "name": "layout",
            "where": "SimplicialComplex.generate_coordinates",
        },
        {"name": "summary", "where": "SimplicialComplex.print_summary"},
    ],
}
RULE = (
    "random simplices of up to 6 nodes, complexes with isolated nodes and "
    "feature tables with several columns and falsy values; oracle: "
    "definitions; non-trivial = a simplex of at least 3 nodes in unsorted "
    "order, and at least two features"
)
NAMES = ["weight", "distance", "Capacity", "x y", "0"]


@st.composite
def cases(draw, big=False):
    c = draw(gen.complexes(min_nodes=2, max_nodes=8, big=big))
    c["simplex"] = list(draw(st.permutations(list(range(12)))))[
        : draw(st.integers(2, 6))
    ]
    k = draw(st.integers(0, 3))
    names = list(draw(st.permutations(NAMES)))
    c["names"], c["missing"] = names[:k], names[k]
    value = st.sampled_from([0, 0.0, 1, -2.5, 3, 1e6, "", "a", "long text", False, None, "<nan>"])
    c["table"] = [[draw(value) for _ in range(k)] for _ in c["edges"]]
    c["nodes"] = [draw(value) for _ in range(c["n"])]
    return c


def real(x):
    """The feature value a case's entry stands for."""
    return float("nan") if x == "<nan>" else x


def same(a, b):
    if type(a) is not type(b):
        return False
    return a == b or (isinstance(a, float) and a != a and b != b)


def check(case, rec):
    edges = [tuple(e) for e in case["edges"]]
    names = case["names"]
    table = [[real(x) for x in row] for row in case["table"]]
    nodes = [real(x) for x in case["nodes"]]
    ef = (
        {e: dict(zip(names, row)) for e, row in zip(edges, table)}
        if names
        else {}
    )
    nf = {v: {"label": x} for v, x in enumerate(nodes)}
    sc = ref.build(case, node_features=nf, edge_features=ef)
    s = case["simplex"]
    rec.mark(len(s) >= 3 and s != sorted(s) and len(names) >= 2)
    rec.label(f"{len(s)} nodes", f"{len(names)} features")

    for given in (list(s), tuple(s)):
        got = sc.get_faces(given)
        want = sorted(
            tuple(sorted(x)) for x in combinations(s, len(s) - 1)
        )
        ref.exact([tuple(x) for x in got], want, f"faces of {given}")
    for t in case["tris"]:
        ref.exact(
            [tuple(x) for x in sc.get_faces(t)],
            sorted(tuple(sorted(x)) for x in combinations(t, 2)),
            f"faces of triangle {t}",
        )

    got = sc.get_node_features()
    ref.need(
        sorted(got) == list(range(case["n"]))
        and all(same(got[v]["label"], nodes[v]) for v in got),
        f"node features {got}, given {nf}",
    )
    got = sc.get_edge_features()
    ref.exact(list(got) if names else dict(got), edges if names else {}, "edges")
    for e, row in zip(edges, table):
        if names:
            ref.need(
                list(got[e]) == names
                and all(same(got[e][n], x) for n, x in zip(names, row)),
                f"features of {e}: {got[e]}, given {dict(zip(names, row))}",
            )
    ref.exact(list(sc.edge_feature_names()), names, "feature names")
    for k, n in enumerate(names):
        got = sc.get_edge_features(n)
        ref.need(
            list(got) == edges
            and all(same(got[e], r[k]) for e, r in zip(edges, table)),
            f"feature {n!r}: {got}, given {[r[k] for r in case['table']]}",
        )
    if names:
        ref.raises(
            KeyError,
            lambda: sc.get_edge_features(case["missing"]),
            f"feature {case['missing']!r} of {names}",
        )
    pos = sc.generate_coordinates()
    ref.exact(sorted(pos), list(range(case["n"])), "nodes with coordinates")
    for v, p in pos.items():
        ref.need(
            np.shape(p) == (2,) and np.all(np.isfinite(p)),
            f"position {p} of node {v}",
        )
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        sc.print_summary()
    counts = (case["n"], len(edges), len(case["tris"]))
    text = out.getvalue()
    for word, n in zip(("nodes", "edges", "triangles"), counts):
        hit = re.search(rf"{word}\D*(\d+)", text)
        ref.need(
            hit is not None and int(hit.group(1)) == n,
            f"summary {text!r}, the complex has {n} {word}",
        )
    ref.need(str(counts) in text, f"summary {text!r}, shape {counts}")
    hit = re.search(r"(?i)dimension\D*(\d+)", text)
    ref.need(
        hit is not None and int(hit.group(1)) == (2 if counts[2] else 1),
        f"summary {text!r}, the complex has {counts[2]} triangles",
    )
    ref.exact(tuple(sc.shape), counts, "shape")
    ref.exact(sc.max_dim, 2 if case["tris"] else 1, "dimension")


CLAUSES = [
    Clause("queries", cases, check, 6000),
    Clause("huge", lambda: cases(big="huge"), check, 24, seeded=True),
]
