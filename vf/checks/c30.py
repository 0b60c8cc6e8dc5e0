"""C30 colours, labels and options of the plots."""

import numpy as np

from vf import gen, plots, ref, st
from vf.core import Clause

META = {
    "title": "Plots colour and label each edge and node by its own value",
    "statement": (
        "For every complex and flow, given as array, list or dictionary, each "
        "edge is drawn in the colour of its own value on the chosen colour "
        "map, whose range runs from the minimum lowered by half its magnitude "
        "to the maximum unless limits are given, and a colour bar shows this "
        "map and range; the same holds for numeric node colours. With labels, "
        "each edge of the flow carries its own value, displaced from its "
        "midpoint by at most the offset. Drawing options (sizes, widths, "
        "fonts, colours) reach the items they name, and an unknown option is "
        "rejected with a ValueError."
    ),
    "over": ["inputs"],
    "quantifier": "every complex, flow, form of flow, colour map and options",
    "why": (
        "the tests check that something is drawn; a permuted colour or label "
        "is invisible to them"
    ),
    "files": ["pytspl/plot/plot.py"],
    "mechanism": [
        {"name": "flow dictionary", "where": "SCPlot.create_edge_flow"},
        {"name": "edge colours and colour bar", "where": "SCPlot.draw_sc_edges"},
        {"name": "node colours and colour bar", "where": "SCPlot.draw_sc_nodes"},
        {
            "name": "edge labels",
            "where": "SCPlot.draw_edge_labels, _calculate_edge_label_position",
        },
        {"name": "option routing", "where": "SCPlot.draw_network"},
    ],
}
RULE = (
    "random complex with edges in shuffled order, distinct coordinates, flow "
    "(also constant, negative, zero), form, colour map, limits and options; "
    "oracle: value-to-colour map evaluated per edge, matched to the drawn "
    "artists by position; non-trivial = at least 3 edges with different values"
)
MAPS = ["viridis", "coolwarm", "Greens"]
BAD = ["nodesize", "color", "label", "edge_labels_", "width", "positions"]


@st.composite
def cases(draw, big=False):
    c = draw(gen.complex_flow(min_nodes=2, max_nodes=6, big=big))
    c["xy"] = draw(plots.coordinates(c["n"]))
    if draw(st.integers(0, 9)) == 0:
        c["flow"] = [c["flow"][0]] * len(c["flow"])
    c["form"] = draw(st.sampled_from(["array", "list", "dict", "part"]))
    c["keep"] = gen.bits(draw, len(c["edges"]))
    c["ints"] = draw(st.booleans())
    c["how"] = draw(st.sampled_from(["network", "network", "edges"]))
    c["directed"] = draw(st.booleans())
    c["labels"] = draw(st.booleans())
    c["map"] = draw(st.sampled_from([None, *MAPS, "current"]))
    c["one"] = draw(st.sampled_from(["both", "both", "low", "high"]))
    c["limits"] = (
        sorted([draw(st.floats(-50, 50)), draw(st.floats(-50, 50))])
        if draw(st.integers(0, 2)) == 0
        else None
    )
    opts = {
        "node_size": draw(st.integers(50, 900)),
        "edge_width": draw(st.integers(1, 9)) / 2.0,
        "arrowsize": draw(st.integers(5, 40)),
        "font_size": draw(st.integers(5, 20)),
        "font_color": draw(st.sampled_from(["red", "k", "#00ff00"])),
        "font_weight": draw(st.sampled_from(["normal", "bold"])),
        "node_edge_colors": draw(st.sampled_from(["blue", "black"])),
        "node_color": draw(st.sampled_from(["yellow", "#123456"])),
        "offset": draw(st.sampled_from([0.0, 0.05, 0.15, 2.0])),
        "alpha": draw(st.sampled_from([0.25, 0.5, 1.0])),
    }
    use = gen.bits(draw, len(opts))
    c["opts"] = {k: v for (k, v), b in zip(sorted(opts.items()), use) if b}
    c["bad"] = draw(st.sampled_from(BAD))
    c["badopts"] = draw(st.booleans())
    c["aside"] = draw(st.integers(0, 3)) == 0
    return c


def chosen(name):
    """The colour map option; None stands for matplotlib's current one."""
    import matplotlib.pyplot as plt

    return None if name == "current" else plt.get_cmap(name)


def shown_map(name):
    import matplotlib.pyplot as plt

    return plt.get_cmap(None if name == "current" else name or "Blues")


def limits(case, lo, hi):
    """The limits given, as options, and the range that is to be shown."""
    if not case["limits"]:
        return {}, lo, hi
    a, b = case["limits"]
    a = a if case["one"] != "high" else lo
    b = b if case["one"] != "low" else hi
    if not a < b:
        return {}, lo, hi
    kw = {"vmin": a, "vmax": b}
    if case["one"] != "both":
        del kw["vmax" if case["one"] == "low" else "vmin"]
    return kw, a, b


def check(case, rec):
    import matplotlib.pyplot as plt
    from matplotlib.colors import to_rgba
    from pytspl import SCPlot

    sc = ref.build(case)
    edges = [tuple(e) for e in case["edges"]]
    pos = {v: tuple(p) for v, p in enumerate(case["xy"])}
    values = list(case["flow"])
    if case["ints"]:
        values = [int(round(v)) for v in values]
    plotter = SCPlot(sc, coordinates=pos)
    made = plotter.create_edge_flow(np.array(values))
    ref.need(
        list(made) == edges
        and all(float(made[e]) == v for e, v in zip(edges, values)),
        f"flow dictionary {made} of {values} on {edges}",
    )
    want = dict(zip(edges, values))
    form = case["form"] if case["how"] == "network" else "dict"
    if case["form"] == "part":
        form = "dict"
        part = [e for e, k in zip(edges, case["keep"]) if k] or edges[:1]
        want = {e: want[e] for e in reversed(part)}
    flow = {
        "array": np.array(values),
        "list": list(values),
        "dict": dict(want),
    }[form]
    rec.label(case["how"], form, "labels" if case["labels"] else "no labels")
    rec.mark(len(want) >= 3 and len(set(want.values())) >= 3)
    rec.label("constant" if len(set(want.values())) == 1 else "varied")

    opts = dict(case["opts"])
    if case["map"]:
        opts["edge_cmap"] = chosen(case["map"])
    lo, hi = min(want.values()), max(want.values())
    lo = lo - abs(lo) * 0.5
    given, lo, hi = limits(case, lo, hi)
    opts.update({f"edge_{k}": x for k, x in given.items()})
    rec.label(*(f"{k} given" for k in given))
    figure, ax = plt.subplots()
    if case["aside"]:
        # the given axes are not the current ones
        _, aside = plt.subplots()
        rec.label("another axes current")
    if case["how"] == "edges":
        keys = (
            "edge_cmap",
            "edge_vmin",
            "edge_vmax",
            "edge_width",
            "arrowsize",
            "alpha",
        )
        opts = {k: v for k, v in opts.items() if k in keys}
        plotter.draw_sc_edges(
            edge_flow=flow, directed=case["directed"], ax=ax, **opts
        )
    else:
        plotter.draw_network(
            edge_flow=flow,
            directed=case["directed"],
            with_labels=case["labels"],
            ax=ax,
            **opts,
        )
    if case["aside"]:
        ref.need(
            not (aside.texts or aside.collections or aside.patches)
            and len(aside.figure.axes) == 1,
            "drew outside the given axes",
        )
    r = plots.read(ax)
    found = plots.match_edges(r, list(want), pos, case["directed"], "flow")
    cmap = shown_map(case["map"])
    for e, d in found.items():
        plots.close_color(
            d["color"],
            plots.rgba(cmap, lo, hi, want[e]),
            f"edge {e} with value {want[e]} of range {(lo, hi)}",
        )
        if "edge_width" in opts:
            ref.need(
                d["width"] == opts["edge_width"],
                f"edge width {d['width']}, asked for {opts['edge_width']}",
            )
        if "alpha" in opts:
            ref.need(
                abs(d["color"][3] - opts["alpha"]) <= 1e-6,
                f"edge opacity {d['color'][3]}, asked for {opts['alpha']}",
            )
        if "arrowsize" in opts and case["directed"]:
            ref.need(
                d["head"] == opts["arrowsize"],
                f"arrow size {d['head']}, asked for {opts['arrowsize']}",
            )
    bars = plots.colorbars(figure)
    ref.exact(len(bars), 1, "number of colour bars")
    s = max(1e-9, abs(lo), abs(hi))
    got = bars[0].mappable.get_clim()
    ref.need(
        hi - lo <= 1e-9 * s  # matplotlib widens an empty range
        or abs(got[0] - lo) <= 1e-9 * s and abs(got[1] - hi) <= 1e-9 * s,
        f"colour bar range {got}, expected {(lo, hi)}",
    )
    ref.exact(bars[0].cmap.name, cmap.name, "colour map of the colour bar")
    if case["how"] == "edges":
        return
    node = r["nodes"][0]
    n = case["n"]
    if "node_size" in opts:
        ref.need(
            set(node["size"]) == {opts["node_size"]},
            f"node sizes {node['size']}",
        )
    for key, col in (("node_color", "color"), ("node_edge_colors", "border")):
        if key in opts:
            for g in node[col]:
                plots.close_color(g, np.array(to_rgba(opts[key])), key)
    if "alpha" in opts:
        ref.need(
            np.all(np.abs(node["color"][:, 3] - opts["alpha"]) <= 1e-6),
            f"node colours {node['color'].tolist()}, "
            f"asked for opacity {opts['alpha']}",
        )
    tags = {
        (t["text"], i): t
        for i, t in enumerate(r["texts"])
    }
    if not case["labels"]:
        ref.exact(len(r["texts"]), 0, "texts without labels")
    else:
        ref.exact(len(r["texts"]), n + len(want), "number of labels")
        off = opts.get("offset", 0.15)
        left = dict(tags)
        for (u, v), val in want.items():
            mid = [(a + b) / 2 for a, b in zip(pos[u], pos[v])]
            hit = [
                k
                for k, t in left.items()
                if number(t["text"]) == float(val)
                and all(
                    abs(a - b) <= off + 1e-9 * max(1.0, abs(b))
                    for a, b in zip(t["xy"], mid)
                )
            ]
            ref.need(
                bool(hit),
                f"edge {(u, v)} has no label {val} near {mid}; texts: "
                f"{[(t['text'], t['xy']) for t in r['texts']]}",
            )
        judge_font(r["texts"], opts, "label")
    bad = {case["bad"]: 1}
    if case["badopts"]:
        bad.update(case["opts"])
    ref.raises(
        ValueError,
        lambda: plotter.draw_network(edge_flow=flow, ax=ax, **bad),
        f"option {case['bad']!r}",
    )


def number(text):
    try:
        return float(text)
    except ValueError:
        return None


@st.composite
def node_cases(draw):
    c = draw(gen.complexes(min_nodes=2, max_nodes=7))
    c["xy"] = draw(plots.coordinates(c["n"]))
    c["values"] = draw(gen.vectors(c["n"]))
    c["map"] = draw(st.sampled_from([None, *MAPS, "current"]))
    c["one"] = draw(st.sampled_from(["both", "both", "low", "high"]))
    c["limits"] = (
        sorted([draw(st.floats(-50, 50)), draw(st.floats(-50, 50))])
        if draw(st.integers(0, 2)) == 0
        else None
    )
    c["labels"] = draw(st.booleans())
    c["given_ax"] = draw(st.booleans())
    c["keep"] = gen.bits(draw, len(c["edges"]))
    c["font"] = {
        "font_size": draw(st.sampled_from([None, 7, 15])),
        "font_color": draw(st.sampled_from([None, "red", "#00ff00"])),
        "font_weight": draw(st.sampled_from([None, "bold"])),
        "alpha": draw(st.sampled_from([None, 0.4])),
    }
    c["array"] = draw(st.booleans())
    c["via"] = draw(st.booleans())
    c["strings"] = draw(st.booleans())
    c["offset"] = draw(st.sampled_from([0.0, 0.1, 0.15, 1.0]))
    return c


def judge_font(texts, font, what):
    for t in texts:
        for key, k in (
            ("font_size", "size"),
            ("font_color", "color"),
            ("font_weight", "weight"),
            ("alpha", "alpha"),
        ):
            if key in font:
                ref.exact(t[k], font[key], f"{key} of {what} {t['text']}")


def check_nodes(case, rec):
    """Numeric node colours, and edge labels drawn on their own."""
    import matplotlib.pyplot as plt
    from pytspl import SCPlot

    pos = {v: tuple(p) for v, p in enumerate(case["xy"])}
    plotter = SCPlot(ref.build(case), coordinates=pos)
    vals = list(case["values"])
    lo, hi = min(vals), max(vals)
    lo = lo - abs(lo) * 0.5
    kw, lo, hi = limits(case, lo, hi)
    if case["map"]:
        kw["cmap"] = chosen(case["map"])
    font = {k: v for k, v in case["font"].items() if v is not None}
    if case["labels"]:
        kw.update(font)
    rec.mark(len(set(vals)) >= 2)
    rec.label("network" if case["via"] else "nodes")
    figure, ax = plt.subplots()
    color = np.array(vals, float) if case["array"] else vals
    if case["via"]:
        plotter.draw_network(
            node_color=color, ax=ax, with_labels=case["labels"], **kw
        )
    else:
        plotter.draw_sc_nodes(
            node_color=color, ax=ax, with_labels=case["labels"], **kw
        )
    drawn = plots.read(ax)
    node, texts = drawn["nodes"][0], drawn["texts"]
    ref.exact(
        sorted(t["text"] for t in texts),
        sorted(map(str, range(case["n"]))) if case["labels"] else [],
        "node labels",
    )
    judge_font(texts, font, "node label")
    cmap = shown_map(case["map"])
    for v in range(case["n"]):
        k = [
            i for i, p in enumerate(node["xy"]) if plots.near(p, pos[v])
        ]
        ref.need(bool(k), f"node {v} is not drawn")
        plots.close_color(
            node["color"][k[0]],
            plots.rgba(cmap, lo, hi, vals[v]),
            f"node {v} with value {vals[v]} of range {(lo, hi)}",
        )
    bars = plots.colorbars(figure)
    ref.exact(len(bars), 1, "number of colour bars")
    got = bars[0].mappable.get_clim()
    s = max(1e-9, abs(lo), abs(hi))
    ref.need(
        hi - lo <= 1e-9 * s  # matplotlib widens an empty range
        or abs(got[0] - lo) <= 1e-9 * s and abs(got[1] - hi) <= 1e-9 * s,
        f"colour bar range {got}, expected {(lo, hi)}",
    )
    ref.exact(bars[0].cmap.name, cmap.name, "colour map of the colour bar")

    _, (ax, other) = plt.subplots(1, 2)
    plt.sca(other if case["given_ax"] else ax)
    kw = {"ax": ax} if case["given_ax"] else {}
    labels = {
        tuple(e): (f"e{k}" if case["strings"] else k + 0.5)
        for k, e in enumerate(case["edges"])
        if case["keep"][k] or not any(case["keep"])
    }
    out = plotter.draw_edge_labels(
        labels, offset=case["offset"], **font, **kw
    )
    ref.need(plots.empty(other), "labels were drawn on other axes")
    judge_font(plots.read(ax)["texts"], font, "edge label")
    ref.exact(sorted(out), sorted(labels), "labelled edges")
    ref.exact(len(ax.texts), len(labels), "number of labels")
    for (u, v), t in out.items():
        ref.need(t in ax.texts, f"label of {(u, v)} is not on the axes")
        ref.exact(t.get_text(), str(labels[(u, v)]), f"label of {(u, v)}")
        for a, b, c in zip(t.get_position(), pos[u], pos[v]):
            ref.need(
                abs(a - (b + c) / 2)
                <= case["offset"] + 1e-9 * max(1.0, abs(a)),
                f"label of {(u, v)} at {t.get_position()}, the edge runs "
                f"from {pos[u]} to {pos[v]}",
            )


CLAUSES = [
    Clause("flow", cases, check, 1600),
    Clause("nodes and labels", node_cases, check_nodes, 800),
    Clause("large", lambda: cases(big="large-tame"), check, 32, seeded=True),
]
