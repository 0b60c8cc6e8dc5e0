"""C13 datasets."""

import csv
import os
import pickle
import shutil

import numpy as np

from vf import gen, ref, st
from vf.boot import REPO
from vf.core import Clause, Fixed, Skip, listed

META = {
    "title": "Every listed dataset loads as a valid, aligned network",
    "statement": (
        "Every dataset that is listed loads and yields a valid complex (nodes "
        "0 to n-1, each pair once, triangles made of its edges, boundary of a "
        "boundary zero), one finite coordinate per node, and flow values keyed "
        "by exactly its edges in their order, or an empty flow when the "
        "dataset has no flow file. For transportation networks, the edges are "
        "the links of the network file in the direction first listed, every "
        "3-clique is a triangle, and the flow of an edge is the volume in its "
        "direction minus the volume in the opposite direction. A name that is "
        "not listed is rejected with a ValueError."
    ),
    "over": ["inputs", "configurations"],
    "quantifier": (
        "every bundled dataset, and every transportation dataset placed in "
        "the data folder: links, volumes, coordinates or none, flow or none"
    ),
    "why": (
        "the tests load a few bundled datasets and check types and counts, "
        "not the values, nor any other dataset"
    ),
    "files": [
        "pytspl/io/dataset_loader.py",
        "pytspl/io/data_loaders/transportation_loader.py",
        "pytspl/io/data_loaders/forex_loader.py",
        "pytspl/io/data_loaders/paper_loader.py",
        "pytspl/io/data_loaders/wsn_loader.py",
        "pytspl/io/network_reader.py",
    ],
    "mechanism": [
        {"name": "dispatch and checks", "where": "dataset_loader.load_dataset"},
        {
            "name": "net flow",
            "where": "transportation_loader.load_flow_transportation",
        },
        {
            "name": "network, coordinates",
            "where": "transportation_loader.load_transportation_dataset",
        },
    ],
}
RULE = (
    "all bundled datasets (the 39000-link one only in the thorough tier) "
    "against an independent parser of their files; random transportation "
    "datasets written into a scratch copy of the package; non-trivial = a "
    "network with links in both directions, a flow and a bundled dataset"
)
DATA = os.path.join(REPO, "pytspl", "data")
NETS = os.path.join(DATA, "transportation_networks")


# --- independent parsing -----------------------------------------------------
def table(path):
    with open(path, newline="") as fh:
        return [[x.strip() for x in r] for r in csv.reader(fh, delimiter="\t")]


def network(rows):
    """Directed links (0-based), in file order."""
    head = next(i for i, r in enumerate(rows) if "init_node" in r)
    a, b = rows[head].index("init_node"), rows[head].index("term_node")
    return [
        (int(r[a]) - 1, int(r[b]) - 1) for r in rows[head + 1 :] if len(r) > b
    ]


def first_direction(links):
    seen, out = set(), []
    for u, v in links:
        if (u, v) not in seen and (v, u) not in seen:
            seen.add((u, v))
            out.append((u, v))
    return sorted(out)


def cliques(edges):
    nb = {}
    for u, v in edges:
        nb.setdefault(u, set()).add(v)
        nb.setdefault(v, set()).add(u)
    out = set()
    for u, v in edges:
        for w in nb[u] & nb[v]:
            out.add(tuple(sorted((u, v, w))))
    return sorted(out)


def volumes(rows):
    h = rows[0]
    a, b, c = h.index("From"), h.index("To"), h.index("Volume")
    out = {}
    for r in rows[1:]:
        if len(r) > c:
            out.setdefault((int(r[a]) - 1, int(r[b]) - 1), float(r[c]))
    return out


def judge_valid(sc, coords, what):
    n = len(sc.nodes)
    ref.exact([int(v) for v in sc.nodes], list(range(n)), f"{what}: nodes")
    es = [tuple(int(v) for v in e) for e in sc.edges]
    ref.need(
        len({frozenset(e) for e in es}) == len(es)
        and all(u != v and 0 <= u < n and 0 <= v < n for u, v in es),
        f"{what}: a pair is listed twice or is not a pair of nodes",
    )
    pairs = {frozenset(e) for e in es}
    for t in sc.triangles:
        a, b, c = (int(v) for v in t)
        ref.need(
            {frozenset((a, b)), frozenset((b, c)), frozenset((a, c))} <= pairs,
            f"{what}: triangle {t} has a missing edge",
        )
    ref.exact(
        tuple(sc.shape), (n, len(es), len(sc.triangles)), f"{what}: shape"
    )
    m1, m2 = sc.incidence_matrix(1), sc.incidence_matrix(2)
    ref.need(
        m1.shape == (n, len(es)) and m2.shape == (len(es), len(sc.triangles)),
        f"{what}: incidence matrix shapes",
    )
    bb = m1 @ m2
    ref.need(
        bb.nnz == 0 or float(abs(bb).max()) == 0.0,
        f"{what}: the boundary of a boundary is not zero",
    )
    dense = m1.toarray() if n < 2000 else None
    if dense is not None:
        for j, (u, v) in enumerate(es):
            ref.need(
                dense[u, j] == -1 and dense[v, j] == 1, f"{what}: incidence of edge {j}"
            )
    ref.exact(
        sorted(int(k) for k in coords), list(range(n)), f"{what}: nodes with coordinates"
    )
    for k, p in coords.items():
        ref.need(
            len(p) == 2 and np.all(np.isfinite(np.asarray(p, float))),
            f"{what}: coordinates of node {k}: {p}",
        )
    return es


def judge_flow(flow, es, want, what):
    ref.need(isinstance(flow, dict), f"{what}: flow is not a dictionary")
    if want is None:
        ref.exact(dict(flow), {}, f"{what}: flow of a dataset without flow file")
        return
    ref.exact(
        [tuple(int(v) for v in e) for e in flow], es, f"{what}: edges with flow"
    )
    got = np.array([float(x) for x in flow.values()])
    w = np.array([want[e] for e in es], float)
    s = max(1.0, float(np.max(np.abs(w), initial=0)))
    ref.same(got, w, f"{what}: flow", 1e-9, s)


def net_flow(vol, es):
    return {(u, v): vol[(u, v)] - vol.get((v, u), 0.0) for u, v in es}


# --- bundled datasets --------------------------------------------------------
def bundled(tier):
    names = [
        "winnipeg",
        "barcelona",
        "goldcoast",
        "anaheim",
        "siouxfalls",
        "test_dataset",
        "chicago-sketch",
        "paper",
        "forex",
        "wsn",
        "lastfm-1k-artist",
        "not a dataset",
    ]
    if tier == "thorough":
        names.insert(0, "chicago-regional")
    return [{"name": n} for n in names]


def column(path):
    with open(path) as fh:
        return [float(x.split(",")[0]) for x in fh if x.strip()]


def matrix(path):
    return np.loadtxt(path, delimiter=",")


def check_bundled(case, rec):
    from pytspl import list_datasets, load_dataset

    name = case["name"]
    names = list_datasets()
    ref.exact(
        sorted(x for x in set(names) if not x.startswith("gen")),
        sorted(
            [d for d in os.listdir(NETS) if os.path.isdir(os.path.join(NETS, d))]
            + ["paper", "forex", "lastfm-1k-artist", "wsn"]
        ),
        "listed datasets",
    )
    if name == "not a dataset":
        for bad in (name, "", "Paper", "README.md"):
            ref.raises(ValueError, lambda: load_dataset(bad), f"dataset {bad!r}")
        return
    rec.mark()
    strict = case.get("strict") or not listed("C13", "lastfm-1k-artist")
    if name == "lastfm-1k-artist" and not strict:
        try:
            sc, coords, flow = load_dataset(name)
        except FileNotFoundError:
            return  # the recorded finding
    else:
        sc, coords, flow = load_dataset(name)
    es = judge_valid(sc, coords, name)
    tris = sorted(tuple(sorted(int(v) for v in t)) for t in sc.triangles)
    folder = os.path.join(NETS, name)
    if name == "paper":
        d = os.path.join(DATA, "paper_data")
        rows = [x.split() for x in open(os.path.join(d, "edges.csv"))]
        a, b = rows[0].index("Source"), rows[0].index("Target")
        c = rows[0].index("Distance")
        want = sorted((int(r[a]), int(r[b])) for r in rows[1:] if r)
        dist = {(int(r[a]), int(r[b])): float(r[c]) for r in rows[1:] if r}
        ref.exact(es, want, "paper: edges")
        ref.exact(tris, cliques(es), "paper: triangles")
        got = sc.get_edge_features("Distance")
        ref.need(
            all(float(got[e]) == dist[e] for e in es), "paper: distances"
        )
        rows = [x.split() for x in open(os.path.join(d, "coordinates.csv"))]
        for r in rows[1:]:
            ref.same(
                np.array(coords[int(r[0])], float),
                np.array([float(r[1]), float(r[2])]),
                f"paper: coordinates of {r[0]}",
            )
        judge_flow(flow, es, dict(zip(es, column(os.path.join(d, "flow.csv")))), name)
    elif name in ("forex", "chicago-sketch", "lastfm-1k-artist"):
        d, p1, p2, pf = {
            "forex": (
                os.path.join(DATA, "foreign_exchange"),
                "B1.csv",
                "B2t.csv",
                "flow_FX_1538755200.csv",
            ),
            "chicago-sketch": (
                folder,
                "B1_chicago_sketch.csv",
                "B2t_chicago_sketch.csv",
                "flow_chicago_sketch.csv",
            ),
            "lastfm-1k-artist": (
                os.path.join(DATA, "lastfm-dataset-1K"),
                "B1-artist.csv",
                "B2t-artist.csv",
                "flow-artist.csv",
            ),
        }[name]
        m1 = matrix(os.path.join(d, p1))
        m2 = matrix(os.path.join(d, p2))
        cols = [
            (int(np.where(m1[:, j] == -1)[0][0]), int(np.where(m1[:, j] == 1)[0][0]))
            for j in range(m1.shape[1])
        ]
        ref.exact(es, sorted(cols), f"{name}: edges")
        want = sorted(
            tuple(sorted({v for j in np.nonzero(r)[0] for v in cols[j]})) for r in m2
        )
        ref.exact(tris, want, f"{name}: triangles")
        judge_flow(flow, es, dict(zip(cols, column(os.path.join(d, pf)))), name)
        if name == "chicago-sketch":
            with open(os.path.join(d, "coordinates_chicago_sketch.csv")) as fh:
                for r in list(csv.reader(fh))[1:]:
                    ref.same(
                        np.array(coords[int(r[0])], float),
                        np.array([float(r[1]), float(r[2])]),
                        f"{name}: coordinates of {r[0]}",
                    )
    elif name == "wsn":
        with open(os.path.join(DATA, "wsn", "water_network.pkl"), "rb") as fh:
            m1, rate, _, head, hr = pickle.load(fh)
        m1 = np.asarray(m1)
        cols = [
            (int(np.where(m1[:, j] == -1)[0][0]), int(np.where(m1[:, j] == 1)[0][0]))
            for j in range(m1.shape[1])
        ]
        ref.exact(es, cols, "wsn: edges")
        ref.exact(tris, cliques(es), "wsn: triangles")
        rate = np.asarray(rate, float).ravel()
        want = np.concatenate(
            (
                np.asarray(head, float).ravel(),
                -np.asarray(hr, float).ravel()
                * np.sign(rate)
                * np.abs(rate) ** 1.852,
            )
        )
        ref.same(flow, want, "wsn: heads and pipe losses", 1e-9)
    else:
        links = network(table(os.path.join(folder, f"{name}_net.tntp")))
        ref.exact(es, first_direction(links), f"{name}: edges")
        ref.exact(tris, cliques(es), f"{name}: triangles")
        node = os.path.join(folder, f"{name}_node.tntp")
        if os.path.exists(node):
            rows = table(node)
            for r in rows[1:]:
                if len(r) >= 3:
                    ref.need(
                        np.allclose(
                            np.array(coords[int(r[0]) - 1], float),
                            [float(r[1]), float(r[2])],
                        ),
                        f"{name}: coordinates of {r[0]}",
                    )
        fl = os.path.join(folder, f"{name}_flow.tntp")
        want = (
            net_flow(volumes(table(fl)), es) if os.path.exists(fl) else None
        )
        judge_flow(flow, es, want, name)


# --- generated transportation datasets -----------------------------------------
@st.composite
def cases(draw):
    c = draw(
        gen.complexes(
            min_nodes=2,
            max_nodes=8,
            shapes=["random", "random", "strip", "cycle", "complete", "tree"],
            fill="none",
        )
    )
    c["n"] = max(max(e) for e in c["edges"]) + 1
    links = [list(e) for e in c["edges"]]
    back = gen.bits(draw, len(links), "most")
    links += [[v, u] for (u, v), b in zip(c["edges"], back) if b]
    links = [list(x) for x in draw(st.permutations(links))]
    c["links"] = links
    c["vol"] = draw(
        st.lists(
            st.sampled_from([0.0, 100.0, 2.5, 7.25, 4494.65764, 12.0, 33.0]),
            min_size=len(links),
            max_size=len(links),
        )
    )
    c["order"] = draw(st.permutations(range(len(links))))
    c["cap"] = draw(
        st.lists(st.integers(1, 9), min_size=len(links), max_size=len(links))
    )
    c["xy"] = draw(
        st.lists(st.integers(-90, 90), min_size=2 * c["n"], max_size=2 * c["n"])
    )
    c["norder"] = draw(st.permutations(range(c["n"])))
    c["has_nodes"] = draw(st.sampled_from([True, True, False]))
    c["has_flow"] = draw(st.sampled_from([True, True, False]))
    del c["tris"]
    return c


def check_generated(case, rec):
    import pytspl

    from pytspl import list_datasets, load_dataset

    base = os.path.join(
        os.path.dirname(os.path.realpath(pytspl.__file__)),
        "data",
        "transportation_networks",
    )
    if os.path.realpath(base).startswith(os.path.realpath(REPO) + os.sep):
        raise RuntimeError("generated datasets need the scratch copy")
    name = f"gen{os.getpid()}"
    d = os.path.join(base, name)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    try:
        with open(os.path.join(d, f"{name}_net.tntp"), "w") as fh:
            fh.write(
                "<NUMBER OF ZONES> 2\t\t\n<NUMBER OF NODES> 2\t\n"
                "<FIRST THRU NODE> 1\n<NUMBER OF LINKS> 7\t\n"
                "<ORIGINAL HEADER>~\n<END OF METADATA>\t\t\n\n\n"
            )
            fh.write("~\tinit_node\tterm_node\tcapacity\tlength\t;\n")
            for (u, v), c in zip(case["links"], case["cap"]):
                fh.write(f"\t{u + 1}\t{v + 1}\t{c}\t{c * 0.5}\t;\n")
        if case["has_nodes"]:
            with open(os.path.join(d, f"{name}_node.tntp"), "w") as fh:
                fh.write("node\tX\tY\t;\n")
                for i in case["norder"]:
                    x, y = case["xy"][2 * i], case["xy"][2 * i + 1]
                    fh.write(f"{i + 1}\t{x}\t{y / 4}\t;\n")
        if case["has_flow"]:
            with open(os.path.join(d, f"{name}_flow.tntp"), "w") as fh:
                fh.write("From \tTo \tVolume \tCost \n")
                for k in case["order"]:
                    u, v = case["links"][k]
                    fh.write(f"{u + 1} \t{v + 1} \t{case['vol'][k]} \t1.5 \n")
        ref.need(name in list_datasets(), "a dataset in the folder is not listed")
        sc, coords, flow = load_dataset(name)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    es = judge_valid(sc, coords, "generated")
    ref.exact(len(sc.nodes), case["n"], "generated: number of nodes")
    links = [tuple(x) for x in case["links"]]
    ref.exact(es, first_direction(links), "generated: edges")
    ref.exact(
        sorted(tuple(sorted(int(v) for v in t)) for t in sc.triangles),
        cliques(es),
        "generated: triangles",
    )
    cap = dict(zip(links, case["cap"]))
    got = sc.get_edge_features("capacity")
    ref.need(
        len(got) == len(es) and all(float(got[e]) == cap[e] for e in es),
        f"generated: capacities {got}",
    )
    if case["has_nodes"]:
        for i in range(case["n"]):
            ref.same(
                np.array(coords[i], float),
                np.array([case["xy"][2 * i], case["xy"][2 * i + 1] / 4]),
                f"generated: coordinates of node {i}",
            )
    else:
        rec.label("no coordinates")
    if case["has_flow"]:
        vol = dict(zip(links, case["vol"]))
        judge_flow(flow, es, net_flow(vol, es), "generated")
        rec.mark(any((v, u) in vol for u, v in es))
    else:
        judge_flow(flow, es, None, "generated")
        rec.label("no flow")


CLAUSES = [
    Fixed("bundled", bundled, check_bundled),
    Clause("generated", cases, check_generated, 1200),
]
KNOWN = {
    "lastfm-1k-artist": (
        CLAUSES[0],
        {"name": "lastfm-1k-artist", "strict": True},
    )
}
