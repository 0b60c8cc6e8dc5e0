"""C29 geometry of the plots."""

import copy

import numpy as np

from vf import gen, plots, ref, st
from vf.core import Clause

META = {
    "title": "Plots show every node, edge and triangle at its coordinates",
    "statement": (
        "For every complex and coordinates, drawing shows each node once at "
        "its position, each edge (of the complex, or of the given flow) as "
        "one arrow (by default) from its first to its second node, or a plain "
        "line when undirected, and each triangle of the complex as one filled polygon "
        "on its three nodes, with node labels at their own nodes if "
        "requested, within a view of the bounding box of the nodes plus 5 "
        "percent and without ticks or frame; nodes lie above edges, edges above "
        "triangles. Without coordinates one finite layout of "
        "all nodes, isolated ones included, is chosen and kept for later "
        "drawings. Everything goes to the given axes, or the current ones if "
        "none are given, and the complex, its coordinates and the flow stay "
        "unchanged."
    ),
    "over": ["inputs"],
    "quantifier": "every complex, coordinates, flow dictionary, axes and mode",
    "why": (
        "the tests count artists on one network; a shifted, swapped or "
        "missing item on another network is not seen"
    ),
    "files": ["pytspl/plot/plot.py"],
    "mechanism": [
        {"name": "layout and view", "where": "SCPlot._init_axes"},
        {"name": "nodes and labels", "where": "SCPlot.draw_sc_nodes"},
        {"name": "edges and triangles", "where": "SCPlot.draw_sc_edges"},
        {"name": "composition", "where": "SCPlot.draw_network"},
    ],
}
RULE = (
    "random complex, distinct coordinates (also collinear ones) or none, "
    "sub-dictionary of edges, current or given axes; oracle: the artists read "
    "back from the axes; non-trivial = a triangle and edges of both directions"
)


@st.composite
def cases(draw, big=False):
    c = draw(gen.complex_flow(min_nodes=2, max_nodes=7, big=big))
    c["xy"] = draw(plots.coordinates(c["n"]))
    c["layout"] = draw(st.integers(0, 3)) == 0
    c["what"] = draw(
        st.sampled_from(
            ["nodes", "edges", "labels", "network", "network", "network"]
        )
    )
    c["flowform"] = draw(st.sampled_from(["none", "none", "list", "part"]))
    c["keep"] = gen.bits(draw, len(c["edges"]))
    c["directed"] = draw(st.booleans())
    c["labels"] = draw(st.booleans())
    c["given_ax"] = draw(st.booleans())
    c["bare"] = draw(st.booleans())
    c["reverse"] = draw(st.booleans())
    c["margins"] = draw(st.sampled_from([None, None, 0.1, [0.05, 0.2]]))
    return c


def check(case, rec):
    import matplotlib.pyplot as plt
    from pytspl import SCPlot

    sc = ref.build(case)
    n, edges = case["n"], [tuple(e) for e in case["edges"]]
    order = list(range(n))
    if case["reverse"]:
        order.reverse()
    pos = {v: tuple(case["xy"][v]) for v in order}
    given = None if case["layout"] else pos
    before = copy.deepcopy(given)
    snap = ([*sc.nodes], [tuple(e) for e in sc.edges], [*map(tuple, sc.triangles)])
    plotter = SCPlot(sc, coordinates=given)
    figure, (ax, other) = plt.subplots(1, 2)
    plt.sca(other if case["given_ax"] else ax)
    kw = {"ax": ax} if case["given_ax"] else {}
    flow, shown = None, edges
    if case["what"] != "nodes" and case["flowform"] != "none":
        flow = dict(zip(edges, case["flow"]))
        if case["flowform"] == "part":
            part = [e for e, k in zip(edges, case["keep"]) if k]
            shown = part or edges[:1]
            flow = {e: flow[e] for e in shown}
        if case["flowform"] == "list" and case["what"] == "network":
            flow = list(flow.values())
    margins = {} if case["margins"] is None else {"margins": case["margins"]}
    keep_flow = copy.deepcopy(flow)
    directed = {"directed": case["directed"]}
    labels = {"with_labels": case["labels"]}
    if case["bare"]:
        # a drawing is directed, and nodes alone are unlabelled, by default
        if case["directed"]:
            directed = {}
        if case["labels"] == (case["what"] == "network"):
            labels = {}
    if case["what"] == "nodes":
        plotter.draw_sc_nodes(**labels, **kw, **margins)
    elif case["what"] == "edges":
        plotter.draw_sc_edges(edge_flow=flow, **directed, **kw)
    elif case["what"] == "labels":
        flow = flow if isinstance(flow, dict) else dict.fromkeys(edges, 1.5)
        shown, keep_flow = list(flow), dict(flow)
        plotter.draw_edge_labels(flow, **kw)
    else:
        plotter.draw_network(
            edge_flow=flow, **directed, **labels, **kw, **margins
        )
    up = [u < v for u, v in edges]
    rec.mark(case["tris"] and any(up) and not all(up))
    rec.label(
        case["what"],
        "layout" if case["layout"] else "coordinates",
        "directed" if case["directed"] else "undirected",
        f"flow {case['flowform']}",
    )
    ref.need(plots.empty(other), "something was drawn on other axes")
    at = plotter.pos
    if case["layout"]:
        ref.need(
            sorted(at) == list(range(n))
            and np.all(np.isfinite([plots.point(p) for p in at.values()])),
            f"layout {at}",
        )
    else:
        at = pos
    r = plots.read(ax)
    what = case["what"]
    if what in ("nodes", "network"):
        plots.judge_nodes(r, range(n), at, what)
        labels = {}
        for t in r["texts"]:
            for v in range(n):
                if t["text"] == str(v) and plots.near(
                    t["xy"], plots.point(at[v])
                ):
                    labels[v] = labels.get(v, 0) + 1
        if case["labels"]:
            for v in range(n):
                ref.need(v in labels, f"node {v} has no label")
        if not case["labels"]:
            ref.exact(len(r["texts"]), 0, "texts without labels")
        elif flow is None:
            ref.exact(len(r["texts"]), n, "number of labels")
        elif what == "network":
            ref.exact(len(r["texts"]), n + len(shown), "number of labels")
    if what == "network":
        heights = [("triangle", "edge", "node").index(k) for k in plots.layers(ax)]
        ref.need(heights == sorted(heights), f"layers {plots.layers(ax)}")
    if what == "labels":
        ref.exact(len(r["texts"]), len(shown), "number of edge labels")
        ref.need(
            not r["edges"] and not r["fills"] and not r["nodes"],
            "labels: other items drawn",
        )
    elif what in ("edges", "network"):
        plots.match_edges(r, shown, at, case["directed"], what)
        plots.judge_fills(r, case["tris"], at, what)
    else:
        ref.need(not r["edges"] and not r["fills"], "nodes: edges drawn")
    xy = np.array([plots.point(at[v]) for v in range(n)])
    for k, (lo, hi) in enumerate((ax.get_xlim(), ax.get_ylim())):
        a, b = xy[:, k].min(), xy[:, k].max()
        s = max(1.0, abs(a), abs(b))
        ref.need(
            lo <= a + 1e-9 * s and b <= hi + 1e-9 * s,
            f"view {(lo, hi)} leaves out nodes in {(a, b)}",
        )
        if not case["layout"] and b - a > 1e-6 * s:
            pad = 0.05 * (b - a)
            ref.need(
                abs(lo - a + pad) <= 1e-9 * s and abs(hi - b - pad) <= 1e-9 * s,
                f"view {(lo, hi)} of nodes in {(a, b)}",
            )
    ref.need(
        not ax.axison
        or (
            not len(ax.get_xticks())
            and not len(ax.get_yticks())
            and not any(s.get_visible() for s in ax.spines.values())
        ),
        "the axes show ticks or a frame",
    )
    ref.need(given == before, "the coordinates were changed")
    ref.need(
        snap
        == ([*sc.nodes], [tuple(e) for e in sc.edges], [*map(tuple, sc.triangles)]),
        "the complex was changed",
    )
    ref.need(flow == keep_flow, "the flow was changed")

    # a second drawing uses the same layout
    old = {v: plots.point(at[v]) for v in range(n)}
    _, again = plt.subplots()
    plotter.draw_sc_nodes(ax=again)
    plots.judge_nodes(plots.read(again), range(n), old, "second drawing")


CLAUSES = [
    Clause("geometry", cases, check, 1600),
    Clause("large", lambda: cases(big="large-tame"), check, 32, seeded=True),
]
