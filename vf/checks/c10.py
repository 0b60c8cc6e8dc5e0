"""C10 reading networks from edge lists."""

import math
import os
import tempfile

import numpy as np

from vf import gen, ref, st
from vf.core import Clause

META = {
    "title": "Edge-list files (csv, tntp) become exactly the network they list",
    "statement": (
        "Reading an edge-list file gives nodes 0 to the largest id (ids "
        "shifted down when the file counts from one), and one edge per "
        "connected pair, in the direction of the pair's first row, however "
        "often or in whichever direction it is listed again, in ascending "
        "order. Every edge carries the values that its defining row has in "
        "the requested feature columns (in tntp files: all columns but the "
        "end points; an empty cell is NaN), and these stay attached to that edge in the complex "
        "built from it; asking for an unknown feature is a KeyError."
    ),
    "over": ["inputs"],
    "quantifier": (
        "every edge list: row order, duplicate and reciprocal rows, column "
        "order, delimiter, index base, feature columns"
    ),
    "why": (
        "the tests read two files whose rows are sorted and unique; wrong "
        "feature rows and directions appear only with other files"
    ),
    "files": [
        "pytspl/io/network_reader.py",
        "pytspl/simplicial_complex/simplicial_complex.py",
    ],
    "mechanism": [
        {"name": "edge extraction", "where": "network_reader._extract_nodes_edges"},
        {
            "name": "feature extraction",
            "where": "network_reader._extract_edge_features",
        },
        {"name": "readers", "where": "network_reader.read_csv, read_tntp"},
    ],
}
RULE = (
    "random edge lists written to a scratch file with duplicates, reciprocal "
    "rows, shuffled columns, several delimiters and both index bases; oracle: "
    "the list itself; non-trivial = a repeated pair and at least one feature"
)
WORDS = ["a", "b c", "main st", "x9", "1,5", "2,000", "12:30", "3/4", "n;o", "A|B"]


@st.composite
def cases(draw, large=False):
    if large:
        n = draw(st.integers(16, 45))
        pairs = [(a, b) for a in range(n) for b in range(a + 1, n)]
        keep = gen.bits(draw, len(pairs), "half" if n < 35 else "few")
        base = [p for p, x in zip(pairs, keep) if x] or pairs[:1]
    else:
        n = draw(st.integers(2, 9))
        shapes = ["random", "random", "tree", "cycle", "complete"]
        base = gen.graph_edges(draw, n, draw(st.sampled_from(shapes)))
    rows = [list(e) if draw(st.booleans()) else [e[1], e[0]] for e in base]
    again = draw(st.lists(st.integers(0, len(rows) - 1), min_size=0, max_size=200 if large else 5))
    rows += [
        list(rows[i]) if draw(st.booleans()) else [rows[i][1], rows[i][0]]
        for i in again
    ]
    if draw(st.integers(0, 3)):
        rows = [list(r) for r in draw(st.permutations(rows))]
    if draw(st.booleans()):
        # spread the ids, so that some nodes are isolated
        step = draw(st.integers(1, 3))
        rows = [[u * step, v * step] for u, v in rows]
    elif draw(st.integers(0, 3)) == 0:
        # large ids, in blocks of three
        step = draw(st.sampled_from([10, 100, 256, 1000, 1024, 9000, 33000]))
        rows = [[v % 3 + step * (v // 3) for v in r] for r in rows]
    k = draw(st.sampled_from([0, 1, 1, 2, 2, 3, 3, 4, 6]))
    kinds = [draw(st.sampled_from(["int", "float", "word"])) for _ in range(k)]
    vals = []
    for kind in kinds:
        if kind == "int":
            s = st.integers(-50, 50)
            if draw(st.integers(0, 3)) == 0:
                s = st.integers(-(10**9), 10**12)
        elif kind == "float":
            s = st.sampled_from([0.5, -1.25, 3.75, 0.0, 100.5, 2.125])
            if draw(st.booleans()):
                s = st.floats(-1000.0, 1000.0)
            elif draw(st.booleans()):
                s = st.log_floats(1e-9, 1e12)
        else:
            s = st.sampled_from(WORDS)
        col = draw(st.lists(s, min_size=len(rows), max_size=len(rows)))
        if draw(st.integers(0, 5)) == 0:
            # empty cells
            gone = gen.bits(draw, len(rows), "few")
            col = [None if g else x for g, x in zip(gone, col)]
        vals.append(col)
    return {
        "rows": rows,
        "kinds": kinds,
        "vals": vals,
        "names": draw(
            st.sampled_from(
                [
                    ["Distance", "speed", "id", "z", "Name", "Q1"],
                    ["w", "Cap acity", "t", "Zone", "0", "u"],
                ]
            )
        )[:k],
        "use": gen.bits(draw, k, "most"),
        "how": draw(st.sampled_from(["list", "list", "none", "empty"])),
        "ends": draw(
            st.sampled_from([["Source", "Target"], ["from", "to"], ["b", "a"]])
        ),
        "cols": draw(st.permutations(range(k + 2))),
        "delim": draw(st.sampled_from([",", ";", "\t", "|"])),
        "zero": draw(st.booleans()),
        "default_zero": draw(st.booleans()),
        "meta": draw(st.integers(0, 9)),
        "pad": draw(st.sampled_from(["", " ", "  "])),
    }


def expected(case):
    first = {}
    for i, (u, v) in enumerate(case["rows"]):
        if (u, v) not in first and (v, u) not in first:
            first[(u, v)] = i
    nodes = list(range(max(max(r) for r in case["rows"]) + 1))
    return nodes, sorted(first), first


def equal(a, b):
    if isinstance(b, str):
        return a == b
    if b is None:
        return isinstance(a, float) and math.isnan(a)
    return isinstance(a, (int, float, np.integer, np.floating)) and math.isclose(
        float(a), float(b), rel_tol=1e-9, abs_tol=1e-18
    )


def judge(builder, case, names, cols, rec, what):
    nodes, edges, first = expected(case)
    sc = builder.to_simplicial_complex()
    for obj in (builder, sc):
        ref.exact([int(v) for v in obj.nodes], nodes, f"{what}: nodes")
        ref.exact(
            [tuple(int(v) for v in e) for e in obj.edges], edges, f"{what}: edges"
        )
    feats = sc.get_edge_features()
    if not names:
        ref.exact(
            [v for v in feats.values() if v], [], f"{what}: features not asked for"
        )
        ref.exact(list(sc.edge_feature_names()), [], f"{what}: feature names")
    else:
        ref.exact(
            sorted(tuple(int(v) for v in e) for e in feats),
            edges,
            f"{what}: edges with features",
        )
        ref.exact(
            sorted(sc.edge_feature_names()), sorted(names), f"{what}: feature names"
        )
        for e in edges:
            ref.exact(sorted(feats[e]), sorted(names), f"{what}: features of {e}")
            for nm, col in zip(names, cols):
                w = col[first[e]]
                ref.need(
                    equal(feats[e][nm], w),
                    f"{what}: feature {nm!r} of edge {e} is {feats[e][nm]!r}, "
                    f"its row says {w!r}",
                )
        for nm, col in zip(names, cols):
            got = sc.get_edge_features(nm)
            for e in edges:
                ref.need(
                    len(got) == len(edges) and equal(got[e], col[first[e]]),
                    f"{what}: column {nm!r} by name: {got!r}",
                )
    if names:
        ref.raises(
            KeyError, lambda: sc.get_edge_features("no such"), f"{what}: unknown feature"
        )
    ref.exact(
        sorted(tuple(int(v) for v in t) for t in sc.triangles),
        sorted(gen.cliques3(edges)),
        f"{what}: triangles",
    )
    ref.same(
        sc.incidence_matrix(1),
        ref.b1({"n": len(nodes), "edges": edges}),
        f"{what}: incidence",
    )
    rec.mark(len(edges) < len(case["rows"]) and bool(names))
    if any((v, u) in first for u, v in case["rows"]):
        rec.label("reciprocal rows")
    if sorted(first.values()) != [first[e] for e in edges]:
        rec.label("rows not in edge order")


def text(x, delim):
    if x is None:
        return ""
    # a cell with the delimiter in it is quoted
    return f'"{x}"' if delim in str(x) else str(x)


def check_csv(case, rec):
    from pytspl import read_csv

    off = 0 if case["zero"] else 1
    names = case["names"]
    heads = case["ends"] + names
    table = [
        [u + off, v + off] + [col[i] for col in case["vals"]]
        for i, (u, v) in enumerate(case["rows"])
    ]
    order = case["cols"]
    fd, path = tempfile.mkstemp(suffix=".csv", prefix="vf-")
    try:
        with os.fdopen(fd, "w") as fh:
            fh.write(case["delim"].join(heads[c] for c in order) + "\n")
            for row in table:
                fh.write(case["delim"].join(text(row[c], case["delim"]) for c in order) + "\n")
        use = [nm for nm, k in zip(names, case["use"]) if k]
        cols = [c for c, k in zip(case["vals"], case["use"]) if k]
        kw = {}
        if case["how"] == "none":
            use, cols = [], []
        elif case["how"] == "empty":
            use, cols = [], []
            kw["feature_cols"] = []
        else:
            kw["feature_cols"] = list(use)
        if not (case["zero"] and case["default_zero"]):
            kw["start_index_zero"] = case["zero"]
        b = read_csv(
            filename=path,
            delimiter=case["delim"],
            src_col=case["ends"][0],
            dest_col=case["ends"][1],
            **kw,
        )
        judge(b, case, use, cols, rec, "csv")
    finally:
        os.unlink(path)


def check_tntp(case, rec):
    from pytspl import read_tntp

    off = 0 if case["zero"] else 1
    names = [n.replace(" ", "_") for n in case["names"]]
    heads = case["ends"] + names
    order = case["cols"]
    pad = case["pad"]
    fd, path = tempfile.mkstemp(suffix=".tntp", prefix="vf-")
    try:
        with os.fdopen(fd, "w") as fh:
            for i in range(case["meta"]):
                fh.write(f"<ITEM {i}> {i}\n" if i % 3 != 2 else "\n")
            fh.write(
                "\t".join(["~"] + [pad + heads[c] + pad for c in order] + [";"])
                + "\n"
            )
            for i, (u, v) in enumerate(case["rows"]):
                row = [u + off, v + off] + [c[i] for c in case["vals"]]
                fh.write("\t".join([""] + [text(row[c], "\t") for c in order] + [";"]) + "\n")
        kw = {}
        if not (case["zero"] and case["default_zero"]):
            kw["start_index_zero"] = case["zero"]
        b = read_tntp(
            filename=path,
            src_col=case["ends"][0],
            dest_col=case["ends"][1],
            skip_rows=case["meta"],
            **kw,
        )
        judge(b, case, names, case["vals"], rec, "tntp")
    finally:
        os.unlink(path)


CLAUSES = [
    Clause("csv", cases, check_csv, 2000),
    Clause("tntp", cases, check_tntp, 2000),
    Clause("long csv", lambda: cases(large=True), check_csv, 80),
    Clause("long tntp", lambda: cases(large=True), check_tntp, 80),
]
