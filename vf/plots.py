"""Reads back what was drawn on a matplotlib axes."""

import numpy as np

from vf import ref, st
from vf.core import Violation


def read(ax):
    """The drawn items as plain data."""
    from matplotlib.collections import LineCollection, PathCollection
    from matplotlib.patches import FancyArrowPatch, Polygon

    nodes, edges, fills = [], [], []
    for c in ax.collections:
        if isinstance(c, PathCollection):
            c.update_scalarmappable()
            xy = np.asarray(c.get_offsets(), float)
            nodes.append(
                {
                    "xy": [tuple(p) for p in xy],
                    "size": c.get_sizes().tolist(),
                    "color": np.asarray(c.get_facecolors()),
                    "border": np.asarray(c.get_edgecolors()),
                    "z": c.get_zorder(),
                }
            )
        elif isinstance(c, LineCollection):
            col, lw = c.get_edgecolors(), c.get_linewidths()
            for k, s in enumerate(c.get_segments()):
                edges.append(
                    {
                        "line": True,
                        "a": tuple(map(float, s[0])),
                        "b": tuple(map(float, s[-1])),
                        "color": np.asarray(col[k % len(col)]),
                        "width": float(lw[k % len(lw)]),
                        "head": None,
                    }
                )
    for p in ax.patches:
        if isinstance(p, FancyArrowPatch):
            a, b = p._posA_posB
            edges.append(
                {
                    "line": False,
                    "a": tuple(map(float, a)),
                    "b": tuple(map(float, b)),
                    "color": np.asarray(p.get_edgecolor()),
                    "width": float(p.get_linewidth()),
                    "head": float(p.get_mutation_scale()),
                }
            )
        elif isinstance(p, Polygon):
            xy = np.asarray(p.get_xy(), float)
            fills.append([tuple(map(float, q)) for q in xy[:3]])
    texts = [
        {
            "text": t.get_text(),
            "xy": tuple(map(float, t.get_position())),
            "size": float(t.get_fontsize()),
            "color": t.get_color(),
            "weight": t.get_fontweight(),
            "alpha": t.get_alpha(),
        }
        for t in ax.texts
    ]
    return {"nodes": nodes, "edges": edges, "fills": fills, "texts": texts}


def layers(ax):
    """The kinds of the drawn items, from the bottom to the top."""
    from matplotlib.collections import LineCollection, PathCollection
    from matplotlib.patches import FancyArrowPatch, Polygon

    kinds = (
        (PathCollection, "node"),
        (LineCollection, "edge"),
        (FancyArrowPatch, "edge"),
        (Polygon, "triangle"),
    )
    out = []
    for item in sorted(ax.get_children(), key=lambda c: c.get_zorder()):
        out += [k for t, k in kinds if isinstance(item, t)][:1]
    return out


def empty(ax):
    r = read(ax)
    return not any(r.values()) and not ax.lines


def colorbars(fig):
    out = []
    for a in fig.axes:
        cb = getattr(a, "_colorbar", None)
        if cb is not None:
            out.append(cb)
    return out


def point(p):
    return (float(p[0]), float(p[1]))


@st.composite
def coordinates(draw, n):
    """Distinct positions, no three needed in general position."""
    scale = draw(st.sampled_from([1.0, 1.0, 0.1, 25.0]))
    pts = draw(
        st.lists(
            st.integers(0, 40 * 40 - 1), min_size=n, max_size=n, unique=True
        )
    )
    if len(set(pts)) < n:
        pts = list(range(n))
    dx, dy = draw(st.integers(-60, 60)), draw(st.integers(-60, 60))
    mode = draw(st.integers(0, 11))
    xy = [((p % 40 + dx) * scale, (p // 40 + dy) * scale) for p in pts]
    if mode == 0:
        xy = [(x, dy * scale) for (x, _) in [(i * scale, 0) for i in range(n)]]
    elif mode == 1:
        xy = [(dx * scale, i * scale) for i in range(n)]
    return [list(p) for p in xy]


def near(a, b, tol=1e-9):
    s = max(1.0, abs(b[0]), abs(b[1]))
    return abs(a[0] - b[0]) <= tol * s and abs(a[1] - b[1]) <= tol * s


def judge_nodes(r, nodes, pos, what):
    ref.exact(len(r["nodes"]), 1, f"{what}: node layers")
    got = r["nodes"][0]["xy"]
    ref.exact(len(got), len(nodes), f"{what}: number of nodes drawn")
    for p, v in zip(sorted(got), sorted(point(pos[v]) for v in nodes)):
        if not near(p, v):
            raise Violation(
                f"{what}: nodes at {sorted(got)}, coordinates "
                f"{sorted(point(pos[v]) for v in nodes)}"[:900]
            )


def match_edges(r, edges, pos, directed, what):
    """Pairs every drawn edge with the edge it shows."""
    ref.exact(len(r["edges"]), len(edges), f"{what}: number of edges drawn")
    left = list(r["edges"])
    found = {}
    for u, v in edges:
        a, b = point(pos[u]), point(pos[v])
        hit = [d for d in left if near(d["a"], a) and near(d["b"], b)]
        if not hit and not directed:
            hit = [d for d in left if near(d["a"], b) and near(d["b"], a)]
        ref.need(
            bool(hit),
            f"{what}: edge {(u, v)} from {a} to {b} is not drawn; drawn: "
            f"{[(d['a'], d['b']) for d in r['edges']]}",
        )
        ref.need(
            hit[0]["line"] is not directed,
            f"{what}: edge {(u, v)} drawn as "
            f"{'line' if hit[0]['line'] else 'arrow'}",
        )
        found[(u, v)] = hit[0]
        left = [d for d in left if d is not hit[0]]
    return found


def judge_fills(r, tris, pos, what):
    got = sorted(sorted(map(point, f)) for f in r["fills"])
    want = sorted(sorted(point(pos[v]) for v in t) for t in tris)
    ok = len(got) == len(want) and all(
        near(p, q) for g, w in zip(got, want) for p, q in zip(g, w)
    )
    ref.need(ok, f"{what}: triangles filled {got}, expected {want}")


def rgba(cmap, lo, hi, v):
    x = 0.0 if hi == lo else (v - lo) / (hi - lo)
    return np.asarray(cmap(float(np.clip(x, 0, 1)) if lo <= v <= hi else x))


def close_color(got, want, what, channels=3):
    # one step of the 256-entry table may be lost to rounding
    ref.need(
        np.max(np.abs(got[:channels] - want[:channels])) <= 0.025,
        f"{what}: colour {np.round(got, 3).tolist()}, expected "
        f"{np.round(want, 3).tolist()}",
    )
