"""Generators of plain-data cases (lists, ints, floats, strings)."""

import random
from itertools import combinations

from vf import st


def bits(draw, m, dense=None):
    """A subset of range(m) as a list of 0/1."""
    if m == 0:
        return []
    top = (1 << m) - 1
    mode = dense or draw(
        st.sampled_from(
            ["half", "half", "most", "most", "most", "few", "all", "one"]
        )
    )
    if mode == "all":
        x = top
    elif mode == "one":
        x = 1 << draw(st.integers(0, m - 1))
    else:
        x = draw(st.integers(0, top))
        if mode == "most":
            x |= draw(st.integers(0, top))
        elif mode == "few":
            x &= draw(st.integers(0, top))
    return [(x >> i) & 1 for i in range(m)]


SHAPES = [
    "random",
    "random",
    "random",
    "random",
    "random",
    "complete",
    "strip",
    "path",
    "cycle",
    "star",
    "strip",
    "tree",
    "two",
]


def graph_edges(draw, n, shape):
    """Undirected edges (i < j) on n nodes, at least one."""
    pairs = list(combinations(range(n), 2))
    if shape == "complete" and n <= 7:
        return pairs
    if shape == "path":
        return [(i, i + 1) for i in range(n - 1)]
    if shape == "cycle" and n >= 3:
        return [(i, i + 1) for i in range(n - 1)] + [(0, n - 1)]
    if shape == "star":
        return [(0, i) for i in range(1, n)]
    if shape == "strip":
        return sorted(
            [(i, i + 1) for i in range(n - 1)]
            + [(i, i + 2) for i in range(n - 2)]
        )
    if shape == "tree":
        return sorted(
            (draw(st.integers(0, i - 1)), i) for i in range(1, n)
        )
    if shape == "two" and n >= 6:
        h = n // 2
        first = list(combinations(range(h), 2))
        second = list(combinations(range(h, n), 2))
        keep = bits(draw, len(first) + len(second), "most")
        es = [p for p, k in zip(first + second, keep) if k]
        return es or [pairs[0]]
    keep = bits(draw, len(pairs))
    es = [p for p, k in zip(pairs, keep) if k]
    if not es:
        es = [pairs[draw(st.integers(0, len(pairs) - 1))]]
    return es


def cliques3(edges):
    """All triangles of an undirected graph, in ascending order."""
    es = sorted({tuple(sorted(e)) for e in edges})
    up = {}
    for a, b in es:
        up.setdefault(a, set()).add(b)
    return [
        (a, b, c)
        for a, b in es
        for c in sorted(up[a] & up.get(b, set()))
    ]


@st.composite
def complexes(
    draw,
    min_nodes=2,
    max_nodes=8,
    big=False,
    need_tri=False,
    orient="any",
    order="any",
    shapes=None,
    fill=None,
    tri_order="any",
    connected=False,
):
    """A valid complex: nodes 0..n-1, oriented edges in some order, and a
    subset of the 3-cliques as triangles. big="large" (or "large-tame",
    without hubs) is a complex of several dozen nodes, "huge" or "hugeN" one
    of hundreds of edges (up to about N), "hugeN-tame" without dense ones.
    connected="mostly": one in three may have unconnected parts, given at
    least four edges."""
    if isinstance(big, str) and big.startswith("huge"):
        size, _, tame = big[4:].partition("-")
        return draw(
            huge_complexes(int(size or 600), need_tri=need_tri, dense=not tame)
        )
    if isinstance(big, str):
        return draw(large_complexes(need_tri=need_tri, hub=big == "large"))
    lo = max(min_nodes, 3) if need_tri else min_nodes
    hi = max_nodes
    if big and draw(st.integers(0, 9)) == 0:
        hi = max_nodes + 5
    n = draw(st.integers(lo, hi))
    if n < 4 and hi > 4 and draw(st.integers(0, 2)):
        n = draw(st.integers(4, hi))
    shape = draw(st.sampled_from(shapes or SHAPES))
    es = graph_edges(draw, n, shape)
    if connected == "mostly":
        connected = len(es) < 4 or draw(st.integers(0, 2)) > 0
    if connected:
        es = sorted(set(es) | {(i, i + 1) for i in range(n - 1)})
    if need_tri and not cliques3(es):
        es = sorted(set(es) | {(0, 1), (0, 2), (1, 2)})
    mode = orient
    if orient == "any":
        mode = draw(st.sampled_from(["up", "mixed", "mixed", "down"]))
    if mode == "mixed":
        flip = bits(draw, len(es), "half")
    else:
        flip = [0 if mode == "up" else 1] * len(es)
    es = [(b, a) if f else (a, b) for (a, b), f in zip(es, flip)]
    if order == "any":
        omode = draw(st.sampled_from(["sorted", "perm", "perm"]))
    else:
        omode = order
    if omode == "sorted":
        es = sorted(es)
    else:
        es = list(draw(st.permutations(es)))
    tris = cliques3(es)
    fmode = fill or draw(
        st.sampled_from(["all", "all", "some", "some", "some", "none"])
    )
    if fmode == "some":
        keep = bits(draw, len(tris))
        tris = [t for t, k in zip(tris, keep) if k]
    elif fmode == "none":
        tris = []
    if need_tri and not tris:
        tris = [cliques3(es)[0]]
    if tri_order == "any" and tris:
        if draw(st.integers(0, 3)) == 0:
            tris = [tuple(draw(st.permutations(t))) for t in tris]
        if draw(st.booleans()):
            tris = list(draw(st.permutations(tris)))
    return {
        "n": n,
        "edges": [list(e) for e in es],
        "tris": [list(t) for t in tris],
    }


@st.composite
def large_complexes(draw, most=60, hub=True, dense=True, need_tri=False):
    """A complex of several dozen nodes: long, wide, or with a hub."""
    kinds = ["strip", "grid", "barbell"]
    if not need_tri:
        kinds += ["path", "cycle", "tree", "sparse"]
    if hub:
        kinds += ["hub", "wheel"]
    if dense:
        kinds += ["dense"]
    kind = draw(st.sampled_from(kinds))
    if kind in ("path", "cycle", "tree"):
        n = draw(st.integers(20, most))
        es = graph_edges(draw, n, kind)
    elif kind == "strip":
        n = draw(st.integers(15, max(16, most // 2)))
        es = graph_edges(draw, n, kind)
    elif kind == "grid":
        a, b = draw(st.integers(3, 6)), draw(st.integers(4, 7))
        n = a * b
        es = [(i, i + 1) for i in range(n) if (i + 1) % b]
        es += [(i, i + b) for i in range(n - b)]
        es += [(i, i + b + 1) for i in range(n - b) if (i + 1) % b]
        es = sorted(es)
    elif kind == "sparse":
        n = draw(st.integers(20, max(21, most // 2)))
        pairs = list(combinations(range(n), 2))
        es = [
            pairs[i]
            for i in sorted(
                set(
                    draw(
                        st.lists(
                            st.integers(0, len(pairs) - 1),
                            min_size=n,
                            max_size=3 * n,
                        )
                    )
                )
            )
        ]
    elif kind == "barbell":
        k, m = draw(st.integers(3, 6)), draw(st.integers(8, 25))
        n = 2 * k + m
        es = list(combinations(range(k), 2))
        es += [(i, i + 1) for i in range(k - 1, k + m)]
        es += list(combinations(range(k + m, n), 2))
        es = sorted(set(es))
    elif kind == "hub":
        n = draw(st.integers(100, 150))
        es = [(0, i) for i in range(1, n)]
        es += [(i, i + 1) for i in range(1, draw(st.integers(1, 9)))]
    elif kind == "wheel":
        n = draw(st.integers(20, most))
        es = [(0, i) for i in range(1, n)]
        es += [(i, i + 1) for i in range(1, n - 1)] + [(1, n - 1)]
    else:
        n = draw(st.integers(9, 11))
        pairs = list(combinations(range(n), 2))
        gone = draw(
            st.lists(st.integers(0, len(pairs) - 1), min_size=0, max_size=6)
        )
        es = [e for i, e in enumerate(pairs) if i not in gone]
    mode = draw(st.sampled_from(["up", "mixed", "mixed"]))
    if mode == "mixed":
        flip = bits(draw, len(es), "half")
        es = [(b, a) if f else (a, b) for (a, b), f in zip(es, flip)]
    if draw(st.booleans()):
        es = list(draw(st.permutations(es)))
    tris = cliques3(es) if kind not in ("path", "tree") else []
    keep = bits(draw, len(tris))
    if draw(st.booleans()):
        tris = [t for t, k in zip(tris, keep) if k] or tris[: int(need_tri)]
    return {
        "n": n,
        "kind": kind,
        "edges": [list(e) for e in es],
        "tris": [list(t) for t in tris],
    }


@st.composite
def huge_complexes(draw, most=600, need_tri=False, dense=True):
    """A complex of hundreds of edges, at most about `most`."""
    m = draw(st.integers(min(150, most), most))  # wanted number of edges
    kinds = ["grid", "grid", "random", "geometric", "strip"]
    kinds += ["dense"] if dense else []
    kinds += [] if need_tri else ["tree", "cycle"]
    kind = draw(st.sampled_from(kinds))
    if kind in ("tree", "cycle"):
        es = graph_edges(draw, m, kind)
    elif kind == "strip":
        es = graph_edges(draw, m // 2, kind)
    elif kind == "dense":
        es = list(combinations(range(max(3, int((2 * min(m, 400)) ** 0.5))), 2))
    elif kind == "grid":
        a = draw(st.integers(3, 12))
        b = max(3, m // (3 * a))
        n = a * b
        es = [(i, i + 1) for i in range(n) if (i + 1) % b]
        es += [(i, i + b) for i in range(n - b)]
        es += [(i, i + b + 1) for i in range(n - b) if (i + 1) % b]
    elif kind == "geometric":
        # every node with some of the next ones
        n = max(5, m // 3)
        es = []
        for i in range(n - 1):
            near = list(range(i + 1, min(n, i + 8)))
            es += [(i, j) for j, k in zip(near, bits(draw, len(near), "half")) if k]
    else:
        n = max(5, m // draw(st.integers(2, 6 if dense else 4)))
        ends = st.integers(0, n - 1)
        es = [
            (draw(ends), draw(ends)) for _ in range(m)
        ]
        es = [e for e in es if e[0] != e[1]]
        es += [(0, 1), (0, 2), (1, 2)]
    es = sorted({(min(e), max(e)) for e in es})
    n = max(map(max, es)) + 1 + draw(st.sampled_from([0, 0, 1, 5]))
    mode = draw(st.sampled_from(["up", "mixed", "mixed"]))
    if mode == "mixed":
        flip = bits(draw, len(es), "half")
        es = [(b, a) if f else (a, b) for (a, b), f in zip(es, flip)]
    if draw(st.booleans()):
        es = list(draw(st.permutations(es)))
    tris = cliques3(es)
    if draw(st.booleans()):
        keep = bits(draw, len(tris))
        tris = [t for t, k in zip(tris, keep) if k] or tris[: int(need_tri)]
    return {
        "n": n,
        "kind": kind,
        "edges": [list(e) for e in es],
        "tris": [list(t) for t in tris],
    }


@st.composite
def spread(draw, case, top=1300):
    """The complex of a case with its nodes renumbered, in the same order,
    to numbers beyond 127, 255, 999, 32767 or 65535 (below `top`), with
    nodes without edges in between."""
    limits = [x for x in (127, 255, 999, 32767, 65535) if x + 30 < top]
    base = draw(st.sampled_from(limits)) - 8
    n = case["n"]
    new = draw(
        st.lists(
            st.integers(base, base + 20 + n), min_size=n, max_size=n, unique=True
        )
    )
    low = draw(st.integers(0, n))  # that many nodes keep small numbers
    new = list(range(low)) + sorted(new)[low:]
    if draw(st.booleans()):
        # twins that a sloppy key confuses: 1 and 1000 + 1, ...
        new = sorted(set(new) | {x + base + 9 for x in new[:low]})[-n:]
    case = dict(case)
    case["n"] = max(new) + 1 + draw(st.integers(0, 3))
    for key in ("edges", "tris"):
        case[key] = [[new[v] for v in s] for s in case[key]]
    return case


SCALES = [1.0, 1.0, 0.01, 0.1, 100.0]


@st.composite
def vectors(draw, size, nonzero=False):
    """A real vector: integers times a scale, so that it shrinks well; at
    times a vector of integers (see ref.vec), of equal numbers or of numbers
    of one sign."""
    scale = draw(st.sampled_from(SCALES))
    xs = draw(
        st.lists(st.integers(-300, 300), min_size=size, max_size=size)
    )
    kind = draw(st.integers(0, 8))
    if kind == 7 and size:
        xs = [xs[0] or 1] * size
        return xs if draw(st.booleans()) else [x * scale for x in xs]
    if kind == 8:
        xs = [abs(x) + 1 for x in xs]
    if kind in (3, 4):
        return [1] + xs[1:] if nonzero and size and not any(xs) else xs
    if kind == 0 and size:
        keep = bits(draw, size)
        xs = [x if k else 0 for x, k in zip(xs, keep)]
    xs = [x * scale for x in xs]
    if kind in (1, 2):
        fr = draw(
            st.lists(
                st.floats(-1, 1),
                min_size=size,
                max_size=size,
            )
        )
        xs = [x + f * scale for x, f in zip(xs, fr)]
    if nonzero and size and not any(abs(x) > 1e-3 * scale for x in xs):
        xs = [scale] + xs[1:]
    return xs


@st.composite
def akin(draw, xs):
    """A vector that a sloppy fingerprint (sum, norm, extremes, first
    values) takes for the given one; at times the given one."""
    y = list(xs)
    kind = draw(st.sampled_from(["order", "shift", "sign", "last", "middle"]))
    if kind == "order":
        y = list(draw(st.permutations(y)))
    elif kind == "shift":
        i, j = (draw(st.integers(0, len(y) - 1)) for _ in range(2))
        y[i] += 4
        y[j] -= 4
    elif kind == "sign":
        y = [-v for v in y]
    else:
        y[-1 if kind == "last" else len(y) // 2] += 3
    return y


@st.composite
def complex_flow(draw, nonzero=False, flows=1, **kw):
    c = draw(complexes(**kw))
    for i in range(flows):
        key = "flow" if i == 0 else f"flow{i + 1}"
        c[key] = draw(vectors(len(c["edges"]), nonzero=nonzero))
    # the code under test is given the flows times a power of two, and its
    # results are divided by it, where a property is linear in the flow
    c["pow"] = draw(st.sampled_from([0, 0, 0, 0, -40, 40]))
    c["form"] = draw(
        st.sampled_from(["", "", "narrow", "narrow", "strided", "readonly"])
    )
    return c


def slow_cases(tier):
    """Long paths and rings: their slowest mode lies just above or below the
    default tolerance of 0.001."""
    out = []
    sizes = [(n, False) for n in range(92, 106)]
    sizes += [(n, True) for n in range(186, 210, 4)]
    for n, ring in sizes:
        rnd = random.Random(n)
        names = list(range(n))
        rnd.shuffle(names)
        edges = [
            [names[i], names[(i + 1) % n]] for i in range(n if ring else n - 1)
        ]
        edges = [e if rnd.random() < 0.5 else e[::-1] for e in edges]
        rnd.shuffle(edges)
        out.append({"n": n, "edges": edges, "tris": []})
    return out
