"""C12 coordinate and flow files."""

import os
import tempfile

import numpy as np

from vf import ref, st
from vf.core import Clause

META = {
    "title": "Coordinate and flow files are read value by value, or reported absent",
    "statement": (
        "Reading a coordinate file maps every listed node id (shifted down "
        "when the file counts from one) to its x and y values, whatever the "
        "row and column order, delimiter, extra columns and blanks in the "
        "header; a missing file gives no coordinates. Reading a flow file "
        "gives a table with exactly the file's rows and columns, with or "
        "without a header line (empty cells as NaN), and a missing file gives "
        "an empty table."
    ),
    "over": ["inputs"],
    "quantifier": "every coordinate and flow file, index base and delimiter",
    "why": "the tests read two fixed files whose ids are sorted",
    "files": ["pytspl/io/network_reader.py"],
    "mechanism": [
        {"name": "coordinates", "where": "network_reader.read_coordinates"},
        {"name": "flow", "where": "network_reader.read_flow"},
    ],
}
RULE = (
    "random tables written to a scratch file; oracle: the table; non-trivial "
    "= ids not ascending"
)
NUM = [0.0, 1.5, -2.25, 100.125, 3.0, -0.5, 1e6, 43.61282792]


@st.composite
def cases(draw):
    n = draw(
        st.integers(1, 12)
        if draw(st.integers(0, 19))
        else st.integers(40, 150)
    )
    ids = list(range(n))
    if draw(st.booleans()):
        ids = [i * draw(st.integers(1, 3)) + i for i in ids]
        ids = sorted(set(ids))
        n = len(ids)
    ids = list(draw(st.permutations(ids)))
    num = st.sampled_from(NUM)
    return {
        "ids": ids,
        "x": draw(st.lists(num, min_size=n, max_size=n)),
        "y": draw(st.lists(num, min_size=n, max_size=n)),
        "extra": draw(
            st.lists(
                st.sampled_from(NUM + [None, "", "text"])
                if draw(st.integers(0, 3)) == 0
                else num,
                min_size=n,
                max_size=n,
            )
        ),
        "cols": draw(st.permutations(range(4))),
        "names": draw(
            st.sampled_from([["Id", "X", "Y", "Z"], ["node", "lon", "lat", ";"]])
        ),
        "pad": draw(st.sampled_from(["", " "])),
        "delim": draw(st.sampled_from([",", ";", "\t"])),
        "zero": draw(st.booleans()),
        "plain": draw(st.booleans()),
        "header": draw(st.booleans()),
        "width": draw(st.integers(1, 3)),
        "holes": draw(
            st.lists(st.sampled_from([0, 0, 0, 1]), min_size=n, max_size=n)
        )
        if draw(st.integers(0, 3)) == 0
        else [0] * n,
    }


def cell(x):
    return "" if x is None else x if isinstance(x, str) else repr(x)


def check(case, rec):
    from pytspl.io.network_reader import read_coordinates, read_flow

    off = 0 if case["zero"] else 1
    delim = case["delim"]
    names = [x if not (x == ";" and delim == ";") else "Z" for x in case["names"]]
    tmp = tempfile.mkdtemp(prefix="vf-")
    pc, pf = os.path.join(tmp, "c.csv"), os.path.join(tmp, "f.csv")
    try:
        kw = {}
        if not (case["zero"] and case["plain"]):
            kw["start_index_zero"] = case["zero"]

        def coords():
            return read_coordinates(
                filename=pc,
                node_id_col=names[0],
                x_col=names[1],
                y_col=names[2],
                delimiter=delim,
                **kw,
            )

        def flow(**k):
            return read_flow(filename=pf, **k)

        ref.exact(coords(), None, "coordinates of a missing file")
        ref.need(flow().empty, "flow of a missing file is not empty")
        pad = case["pad"]
        with open(pc, "w") as fh:
            fh.write(
                delim.join(pad + names[c] + pad for c in case["cols"]) + "\n"
            )
            for i, v in enumerate(case["ids"]):
                row = [v + off, case["x"][i], case["y"][i], case["extra"][i]]
                fh.write(delim.join(cell(row[c]) for c in case["cols"]) + "\n")
        got = coords()
        ref.exact(
            sorted(int(k) for k in got), sorted(case["ids"]), "ids with coordinates"
        )
        for i, v in enumerate(case["ids"]):
            ref.same(
                np.array(got[v], float),
                np.array([case["x"][i], case["y"][i]]),
                f"coordinates of node {v}",
                1e-12,
            )
        rec.mark(case["ids"] != sorted(case["ids"]))
        w = case["width"]
        heads = ["From ", "Volume ", "c"][:w]
        table = [
            [float(case["ids"][i]), case["x"][i], case["y"][i]][:w]
            for i in range(len(case["ids"]))
        ]
        if w > 1:
            for row, hole in zip(table, case["holes"]):
                if hole:
                    row[1] = None
        sep = "\t" if case["plain"] else delim
        with open(pf, "w") as fh:
            if case["header"]:
                fh.write(sep.join(heads) + "\n")
            for row in table:
                fh.write(sep.join("" if x is None else repr(x) for x in row) + "\n")
        k = {} if case["plain"] else {"sep": sep}
        if not case["header"]:
            k["header"] = None
        df = flow(**k)
        ref.exact(
            list(df.columns),
            heads if case["header"] else list(range(w)),
            "flow columns",
        )
        ref.exact(tuple(df.shape), (len(table), w), "flow shape")
        want = np.array(table, float)
        got = df.to_numpy().astype(float)
        ref.exact(
            np.isnan(got).tolist(), np.isnan(want).tolist(), "empty flow cells"
        )
        ref.same(np.nan_to_num(got), np.nan_to_num(want), "flow values", 1e-12)
    finally:
        for p in (pc, pf):
            if os.path.exists(p):
                os.unlink(p)
        os.rmdir(tmp)


CLAUSES = [Clause("coordinates and flow", cases, check, 5000)]
