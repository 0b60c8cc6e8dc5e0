"""C09 building complexes from graphs."""

import numpy as np

from vf import gen, ref, st
from vf.core import Clause

META = {
    "title": "Building a complex picks exactly the requested triangles",
    "statement": (
        "From any simple graph the builder makes a complex with the same "
        "nodes, edges (directions and order kept) and features, whose "
        "triangles are, by default, exactly the 3-cliques, each once and with "
        "ascending nodes, however often a builder is used. With the distance condition they are exactly the "
        "3-cliques whose three edge distances are all known and strictly "
        "below the threshold (None and NaN are unknown), whichever way the "
        "edges are stored; explicitly passed triangles, even an empty list, are taken instead. The result "
        "is always a valid complex (the boundary of a boundary is zero)."
    ),
    "over": ["inputs"],
    "quantifier": (
        "every simple graph, edge direction and order, distance assignment, "
        "threshold and explicit triangle list"
    ),
    "why": (
        "the tests build one network with one threshold; missing or extra "
        "triangles depend on the graph, the directions and ties"
    ),
    "files": ["pytspl/simplicial_complex/scbuilder.py"],
    "mechanism": [
        {"name": "clique enumeration", "where": "SCBuilder.triangles"},
        {"name": "distance condition", "where": "SCBuilder.triangles_dist_based"},
        {"name": "assembly", "where": "SCBuilder.to_simplicial_complex"},
    ],
}
RULE = (
    "random graphs up to 13 nodes, directions and orders; distances from a "
    "coarse grid so that ties with the threshold and missing values occur; "
    "oracle: brute force over node triples; non-trivial = the condition keeps "
    "some but not all cliques"
)


@st.composite
def cases(draw, big=True, wide=False):
    c = draw(gen.complexes(min_nodes=3, max_nodes=9, big=big, fill="all", tri_order="no"))
    if wide:
        c = draw(gen.spread(c, 70000))
    E = len(c["edges"])
    c["dist"] = draw(
        st.lists(
            st.sampled_from([0, 0.25, 0.5, 1, 1.0, 1.25, 1.5, 2, 3.5, -1.0]),
            min_size=E,
            max_size=E,
        )
    )
    if draw(st.integers(0, 3)) == 0:
        # distances a hair's breadth off the threshold
        hair = draw(st.sampled_from([0.0, 1e-15, 1e-12, 1e-9, 1e-7, 1e-5]))
        side = draw(st.sampled_from([-1, -1, 1]))
        for i, b in enumerate(gen.bits(draw, E, "half")):
            if b:
                c["dist"][i] = "near"
        c["hair"] = side * hair
    # 1 and 2: no distance, as None and as NaN
    miss = draw(st.sampled_from([0, 0, 0, 1, 2]))
    c["none"] = [miss * b for b in gen.bits(draw, E, "few")] if miss else [0] * E
    c["eps"] = draw(st.sampled_from([0, 0.5, 1, 1.25, 1.5, 2.0, 3.5, 10]))
    c["name"] = draw(st.sampled_from(["distance", "distance", "length", "D"]))
    c["plain"] = draw(st.booleans())
    c["again"] = draw(
        st.lists(
            st.sampled_from(
                [None, 0, 0.5, 1, 1.25, 1.5, 2.0, 3.5, 10, "all", "all", "none"]
            ),
            min_size=0,
            max_size=5,
        )
    )
    c["node_features"] = draw(st.booleans())
    c["explicit"] = gen.bits(draw, len(c["tris"]), "half")
    c["edge_kind"] = draw(st.sampled_from(["tuple", "tuple"]))
    return c


def plain(feats):
    """The features with NaN spelled out, so that it equals itself."""
    return {
        e: {k: "NaN" if x != x else x for k, x in f.items()}
        for e, f in feats.items()
    }


def check(case, rec):
    from pytspl.simplicial_complex.scbuilder import SCBuilder

    eps = 1.5 if case["plain"] else case["eps"]
    off = eps * (1 + case.get("hair", 0)) or case.get("hair", 0)
    if off == eps:  # the nearest number
        off = float(np.nextafter(eps, eps + case.get("hair", 0)))
    dist = [off if d == "near" else d for d in case["dist"]]
    nodes = list(range(case["n"]))
    edges = [tuple(e) for e in case["edges"]]
    name = case["name"]
    feats = {
        e: {"other": i, name: (d, None, np.nan)[g]}
        for i, (e, d, g) in enumerate(zip(edges, dist, case["none"]))
    }
    nf = {v: {"mass": v * 1.5} for v in nodes} if case["node_features"] else {}
    want = gen.cliques3(case["edges"])

    def builder():
        return SCBuilder(
            nodes=list(nodes),
            edges=list(edges),
            node_features=dict(nf),
            edge_features={k: dict(v) for k, v in feats.items()},
        )

    def judge(sc, tris, what):
        ref.exact(list(sc.nodes), nodes, f"{what}: nodes")
        ref.exact([tuple(e) for e in sc.edges], edges, f"{what}: edges")
        got = [tuple(int(v) for v in t) for t in sc.triangles]
        ref.exact(sorted(got), sorted(tris), f"{what}: triangles")
        ref.exact(
            plain(sc.get_edge_features()), plain(feats), f"{what}: edge features"
        )
        ref.exact(sc.get_node_features(), nf, f"{what}: node features")
        ref.exact(
            tuple(sc.shape), (len(nodes), len(edges), len(tris)), f"{what}: shape"
        )
        m1 = ref.arr(sc.incidence_matrix(1))
        m2 = ref.arr(sc.incidence_matrix(2))
        ref.same(m1 @ m2, np.zeros((len(nodes), len(tris))), f"{what}: boundary")
        for j, t in enumerate(got):
            cover = sorted(
                v for e in np.nonzero(m2[:, j])[0] for v in edges[e]
            )
            ref.exact(
                cover, sorted(t * 2), f"{what}: edges of triangle {t}"
            )

    got = builder().triangles()
    ref.exact(
        sorted(tuple(t) for t in got), sorted(want), "listed triangles"
    )
    judge(builder().to_simplicial_complex(), want, "default")
    judge(builder().to_simplicial_complex(condition="all"), want, "all")
    d = {}
    for (u, v), x, g in zip(edges, dist, case["none"]):
        d[frozenset((u, v))] = None if g else x

    def close(t):
        sides = [d[frozenset(p)] for p in ((t[0], t[1]), (t[1], t[2]), (t[0], t[2]))]
        return all(x is not None and x < eps for x in sides)

    near = [t for t in want if close(t)]
    kw = {} if case["plain"] else {"dist_threshold": eps}
    if name != "distance":
        kw["dist_col_name"] = name
    judge(
        builder().to_simplicial_complex(condition="distance", **kw),
        near,
        f"distance below {eps}",
    )
    ref.exact(
        sorted(
            tuple(t)
            for t in builder().triangles_dist_based(dist_col_name=name, epsilon=eps)
        ),
        sorted(near),
        "listed near triangles",
    )
    rec.mark(0 < len(near) < len(want))
    if any(case["none"]):
        rec.label("missing distances")
    if any(d[frozenset(p)] == eps for t in want for p in ((t[0], t[1]), (t[1], t[2]))):
        rec.label("tie with the threshold")
    chosen = [t for t, k in zip(want, case["explicit"]) if k]
    for cond in ("all", "distance"):
        judge(
            builder().to_simplicial_complex(
                condition=cond, triangles=list(chosen)
            ),
            chosen,
            "explicit",
        )
    judge(builder().to_simplicial_complex(triangles=[]), [], "no triangles")
    # one builder, used again and again
    one = builder()
    for k, how in enumerate(case["again"]):
        what = f"call {k} of {case['again']} to one builder"
        if how == "all" or how is None:
            sc = one.to_simplicial_complex(**({"condition": how} if how else {}))
            judge(sc, want, what)
        elif how == "none":
            judge(one.to_simplicial_complex(triangles=[]), [], what)
        else:
            eps = how
            sc = one.to_simplicial_complex(
                condition="distance", dist_threshold=how, dist_col_name=name
            )
            judge(sc, [t for t in want if close(t)], what)
    # a builder without features, next to one with features
    sc = SCBuilder(list(nodes), list(edges)).to_simplicial_complex()
    ref.exact(dict(sc.get_edge_features()), {}, "features never given")
    ref.exact(dict(sc.get_node_features()), {}, "node features never given")


CLAUSES = [
    Clause("build", cases, check, 6000),
    Clause("huge", lambda: cases(big="huge500-tame"), check, 24, seeded=True),
    Clause("node numbers", lambda: cases(wide=True), check, 80),
]
