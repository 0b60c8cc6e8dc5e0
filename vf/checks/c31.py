"""C31 panels of the Hodge decomposition and of the eigenvectors."""

import numpy as np

from vf import gen, plots, ref, st
from vf.core import Clause, Fixed

META = {
    "title": "Decomposition and eigenvector panels show what their titles say",
    "statement": (
        "For every complex and flow, drawing the Hodge decomposition opens a "
        "new figure with the gradient, curl and harmonic component of the "
        "flow in this order, or only the requested one, each titled with its "
        "letter and showing its own values, rounded as requested, on every "
        "edge. Drawing eigenvectors opens a new figure with one panel per "
        "requested index, in the given order (all of the component if none "
        "are given, none if it has none), titled with the component and the "
        "rounded eigenvalue and showing that eigenvector, rounded as "
        "requested. An unknown component is rejected with a ValueError, and "
        "neither flow nor complex changes."
    ),
    "over": ["inputs", "histories"],
    "quantifier": (
        "every complex, flow, component, index list, rounding and earlier "
        "drawing"
    ),
    "why": "the tests never call these two functions",
    "files": ["pytspl/plot/plot.py"],
    "mechanism": [
        {
            "name": "decomposition panels",
            "where": "SCPlot.draw_hodge_decomposition",
        },
        {"name": "eigenvector panels", "where": "SCPlot.draw_eigenvectors"},
    ],
}
RULE = (
    "random complex and flow, component or all, index lists with repetitions, "
    "rounding on and off, earlier figures open; oracle: reference projectors, "
    "the eigenvector equation, and labels and colours read back per panel; "
    "non-trivial = at least two of the three subspaces present"
)
COMPS = ("gradient", "curl", "harmonic")


@st.composite
def cases(draw):
    c = draw(gen.complex_flow(min_nodes=3, max_nodes=5))
    c["xy"] = draw(plots.coordinates(c["n"]))
    c["layout"] = draw(st.integers(0, 4)) == 0
    c["component"] = draw(st.sampled_from([None, None, *COMPS]))
    c["round"] = draw(st.booleans())
    c["digits"] = draw(st.sampled_from([2, 2, 0, 1, 3, 5]))
    c["plain"] = draw(st.booleans())
    c["old"] = draw(st.integers(0, 2))
    c["size"] = draw(st.sampled_from([None, [9, 3], [4, 6]]))
    c["bad"] = draw(st.sampled_from(["grad", "Curl", "x"]))
    return c


def panels(figure):
    """The panels in reading order."""
    out = [a for a in figure.axes if getattr(a, "_colorbar", None) is None]

    def place(a):
        p = a.get_position()
        return (-round((p.y0 + p.y1) / 2, 3), p.x0)

    return sorted(out, key=place)


def values_on(ax, case, at, what, labels=True, n_texts=None):
    """The value shown on every edge, read from the labels in the panel."""
    edges = [tuple(e) for e in case["edges"]]
    r = plots.read(ax)
    plots.judge_nodes(r, range(case["n"]), at, what)
    found = plots.match_edges(r, edges, at, True, what)
    plots.judge_fills(r, case["tris"], at, what)
    if not labels:
        ref.exact(len(r["texts"]), 0, f"{what}: texts")
    else:
        ref.exact(
            len(r["texts"]), case["n"] + len(edges), f"{what}: number of texts"
        )
    return r["texts"], found


def judge_values(ax, case, at, want, tol, what, labels=True, colors=True):
    """Every edge shows its own value, by label and by colour."""
    import matplotlib.pyplot as plt

    texts, found = values_on(ax, case, at, what, labels)
    lo, hi = min(want), max(want)
    lo = lo - abs(lo) * 0.5
    for e, w in zip([tuple(e) for e in case["edges"]], want):
        if colors and hi - lo > 1e-3:
            plots.close_color(
                found[e]["color"],
                plots.rgba(plt.get_cmap("Blues"), lo, hi, w),
                f"{what}: edge {e} with value {w} of range {(lo, hi)}",
            )
        if not labels:
            continue
        mid = [(a + b) / 2 for a, b in zip(at[e[0]], at[e[1]])]
        ok = False
        for t in texts:
            try:
                x = float(t["text"])
            except ValueError:
                continue
            if abs(x - w) <= tol and all(
                abs(a - b) <= 0.15 + 1e-9 * max(1.0, abs(b))
                for a, b in zip(t["xy"], mid)
            ):
                ok = True
        ref.need(
            ok,
            f"{what}: edge {e} does not show {w}; texts "
            f"{[(t['text'], t['xy']) for t in texts]}",
        )


def start(case):
    import matplotlib.pyplot as plt
    from pytspl import SCPlot

    plt.close("all")
    sc = ref.build(case)
    pos = {v: tuple(p) for v, p in enumerate(case["xy"])}
    plotter = SCPlot(sc, None if case["layout"] else pos)
    olds = []
    for k in range(case["old"]):
        figure, ax = plt.subplots()
        if k:
            plotter.draw_sc_nodes(ax=ax)
        olds.append((figure, len(figure.axes), len(ax.collections)))
    return plt, sc, plotter, olds


def finish(plt, plotter, olds, what):
    figure = plt.gcf()
    ref.need(
        len(plt.get_fignums()) == len(olds) + 1
        and all(figure is not f for f, _, _ in olds),
        f"{what}: no figure of its own",
    )
    for f, n, m in olds:
        ref.need(
            len(f.axes) == n and len(f.axes[0].collections) == m,
            f"{what}: drew on an earlier figure",
        )
    at = {
        v: plots.point(p) for v, p in plotter.pos.items()
    } if plotter.pos is not None else None
    return figure, at


def check(case, rec):
    plt, sc, plotter, olds = start(case)
    f = ref.vec(case["flow"])
    keep = f.copy()
    parts = dict(zip(COMPS, [p @ f for p in ref.projectors(case)]))
    dims = [round(float(np.trace(p))) for p in ref.projectors(case)]
    rec.mark(sum(d > 0 for d in dims) >= 2)
    rec.label(case["component"] or "all", f"{case['old']} open figures")
    kw = {}
    digits = 2
    if not case["plain"]:
        kw = {"round_fig": case["round"], "round_sig_fig": case["digits"]}
        digits = case["digits"] if case["round"] else None
    if case["size"]:
        kw["figsize"] = tuple(case["size"])
    if case["component"]:
        kw["component"] = case["component"]
    plotter.draw_hodge_decomposition(f, **kw)
    figure, at = finish(plt, plotter, olds, "decomposition")
    if case["size"]:
        ref.exact(
            [float(x) for x in figure.get_size_inches()],
            [float(x) for x in case["size"]],
            "size of the figure",
        )
    shown = [case["component"]] if case["component"] else list(COMPS)
    axes = panels(figure)
    ref.exact(len(axes), len(shown), "number of panels")
    for i, (ax, c) in enumerate(zip(axes, shown)):
        ref.need(
            f"f_{{{c[0].upper()}}}" in ax.get_title(),
            f"panel {i} of {shown} is titled {ax.get_title()!r}",
        )
        want = parts[c]
        tol = 1e-7 * max(1.0, float(np.max(np.abs(f))))
        if digits is not None:
            # the shown value is rounded, from a value known up to tol
            tol += 0.5 * 10.0 ** -digits
            off = want
            r = np.round(off, digits)
            safe = np.abs(np.abs(off - r) - 0.5 * 10.0 ** -digits) > 1e-6
            want = np.where(safe, r, off)
            for w, s in zip(want, safe):
                if s:
                    continue
                rec.label("tie")
            if np.all(safe):
                tol = 1e-9 * max(1.0, float(np.max(np.abs(f))))
        tie = digits is not None and not np.all(safe)
        judge_values(
            ax, case, at, list(want), tol, f"panel {c}", colors=not tie
        )
    ref.need(np.array_equal(f, keep), "the flow was changed")
    ref.raises(
        ValueError,
        lambda: plotter.draw_hodge_decomposition(f, component=case["bad"]),
        f"component {case['bad']!r}",
    )


@st.composite
def many_cases(draw):
    """Many eigenvectors."""
    c = draw(eig_cases(nodes=(6, 8)))
    c["pick"] = draw(
        st.sampled_from([[], [], list(range(17)), list(range(12, -1, -1))])
    )
    return c


@st.composite
def eig_cases(draw, nodes=(3, 5)):
    shapes = ["complete", "strip"] if nodes[0] > 5 else None
    c = draw(gen.complexes(min_nodes=nodes[0], max_nodes=nodes[1], shapes=shapes))
    c["xy"] = draw(plots.coordinates(c["n"]))
    c["layout"] = draw(st.integers(0, 4)) == 0
    c["component"] = draw(st.sampled_from(COMPS))
    c["round"] = draw(st.booleans())
    c["digits"] = draw(st.sampled_from([2, 1, 3, 5]))
    c["plain"] = draw(st.booleans())
    c["old"] = draw(st.integers(0, 2))
    c["labels"] = draw(st.booleans())
    c["pick"] = draw(st.lists(st.integers(0, 20), min_size=0, max_size=5))
    return c


def check_eig(case, rec):
    plt, sc, plotter, olds = start(case)
    c = case["component"]
    full, low, up = ref.laps(case)
    M = {"gradient": low, "curl": up, "harmonic": full}[c]
    U, vals = sc.get_component_eigenpair(component=c)
    U, vals = ref.arr(U).copy(), ref.arr(vals).copy()
    k = len(vals)
    rec.label(c, "empty" if k == 0 else "some")
    rec.mark(k >= 2)
    idx = [p % k for p in case["pick"]] if k else []
    kw, digits = {}, 2
    shown_digits = 2
    if not case["plain"]:
        kw = {"round_fig": case["round"], "round_sig_fig": case["digits"]}
        shown_digits = case["digits"]
        digits = case["digits"] if case["round"] else None
    if idx:
        kw["eigenvector_indices"] = idx if case["labels"] else np.array(idx)
        rec.label("indices given")
    plotter.draw_eigenvectors(component=c, with_labels=case["labels"], **kw)
    figure, at = finish(plt, plotter, olds, "eigenvectors")
    order = idx or list(range(k))
    axes = panels(figure)
    ref.exact(len(axes), len(order), f"number of panels of {order}")
    for i, (ax, j) in enumerate(zip(axes, order)):
        what = f"panel {i} ({c} {j})"
        title = ax.get_title()
        ref.need(
            f"lambda_{{{c[0].upper()}}}" in title,
            f"{what} is titled {title!r}",
        )
        shown = float(title.split("=")[-1])
        ref.need(
            abs(shown - vals[j]) <= 0.5 * 10.0 ** -shown_digits + 1e-9,
            f"{what}: title shows {shown}, the eigenvalue is {vals[j]}",
        )
        u = U[:, j]
        ref.same(M @ u, vals[j] * u, "eigenvector", 1e-8)
        want, tol = u, 1e-9
        if digits is not None:
            want = np.round(u, digits)
        judge_values(ax, case, at, list(want), tol, what, case["labels"])
    for bad in ("grad", ""):
        ref.raises(
            ValueError,
            lambda: plotter.draw_eigenvectors(component=bad),
            f"component {bad!r}",
        )


def full_cases(tier):
    """Components with many eigenvectors, all of which are to be drawn."""
    out = []
    pairs = [[i, j] for i in range(7) for j in range(i + 1, 7)]
    filled = [
        [i, j, k] for i in range(7) for j in range(i + 1, 7) for k in range(j + 1, 7)
    ]
    path = [[i, i + 1] for i in range(27)]
    for component, n, edges, tris in (
        ("gradient", 28, path, []),
        ("curl", 7, pairs, filled),
        ("harmonic", 7, pairs, []),
    ):
        out.append(
            {
                "n": n,
                "edges": edges,
                "tris": tris,
                "component": component,
                "xy": [[float(i * i % 29), float(i)] for i in range(n)],
                "layout": False,
                "round": True,
                "digits": 3,
                "plain": component == "curl",
                "old": 0,
                "labels": True,
                "pick": [],
            }
        )
    return out


CLAUSES = [
    Fixed("all of many eigenvectors", full_cases, check_eig),
    Clause("decomposition", cases, check, 480),
    Clause("eigenvectors", eig_cases, check_eig, 480),
    Clause("many eigenvectors", many_cases, check_eig, 32),
]
