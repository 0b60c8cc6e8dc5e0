"""C14 random complexes."""

from itertools import combinations

import numpy as np

from vf import ref, st
from vf.core import Clause
from vf import gen

META = {
    "title": "Random complexes are valid, follow their parameters, and repeat by seed",
    "statement": (
        "For every number of nodes, edge probability, distance threshold and "
        "seed, the generator returns a valid complex on that many nodes whose "
        "edges each carry a distance in [0, 1), drawn evenly from it, whose "
        "triangles are exactly the 3-cliques with all three distances below "
        "the threshold, and one finite coordinate per node. Every pair is an "
        "edge with the given probability: never for zero, always for one, and "
        "in that share of the pairs over many seeds. The same arguments "
        "always give the same complex, distances and coordinates, whatever "
        "else used the global random generators in between."
    ),
    "over": ["inputs", "histories"],
    "quantifier": "every size, probability, threshold, seed, earlier use of random state",
    "why": (
        "the tests check the counts for one seed; repeatability is a claim "
        "about two calls and the state in between"
    ),
    "files": [
        "pytspl/io/sc_generator.py",
        "pytspl/simplicial_complex/scbuilder.py",
    ],
    "mechanism": [
        {
            "name": "random graph and weights",
            "where": "sc_generator.generate_random_simplicial_complex",
        },
        {"name": "distance condition", "where": "SCBuilder.triangles_dist_based"},
    ],
}
RULE = (
    "sizes 1..14, probabilities including 0 and 1, thresholds -0.1..1.1, "
    "random seeds; oracle: brute force over node triples and a second call; "
    "non-trivial = the threshold keeps some but not all cliques"
)


@st.composite
def cases(draw, most=14):
    return {
        "n": draw(st.integers(1 if most <= 14 else 2, most)),
        "p": draw(
            st.sampled_from([0.0, 0.05, 0.1, 0.1, 0.2, 0.3])
            if most > 14
            else st.sampled_from([0.0, 1.0, 1.0, 0.3, 0.5, 0.5, 0.7, 0.9])
        ),
        "thr": draw(st.floats(-0.1, 1.1)),
        "seed": draw(
            st.integers(0, 2**31 - 1)
            if draw(st.integers(0, 5))
            else st.sampled_from([0, 0, 1, 2**32 - 1])
        ),
        "pick": draw(st.integers(0, 1000)),
        "noise": draw(st.integers(0, 2**31 - 1)),
        "other": draw(st.integers(0, 2**31 - 1)),
    }


def state(sc, coords):
    return (
        list(sc.nodes),
        [tuple(e) for e in sc.edges],
        sorted(tuple(t) for t in sc.triangles),
        {k: dict(v) for k, v in sc.get_edge_features().items()},
        {k: [float(x) for x in v] for k, v in coords.items()},
    )


def check(case, rec):
    import random

    from pytspl import generate_random_simplicial_complex as make

    def call(seed, thr=None):
        return make(
            num_of_nodes=case["n"],
            p=case["p"],
            dist_threshold=case["thr"] if thr is None else thr,
            seed=seed,
        )

    random.seed(1)
    np.random.seed(1)
    sc, coords = call(case["seed"])
    n = case["n"]
    ref.exact([int(v) for v in sc.nodes], list(range(n)), "nodes")
    es = [tuple(int(v) for v in e) for e in sc.edges]
    ref.need(
        len({frozenset(e) for e in es}) == len(es)
        and all(u != v and 0 <= u < n and 0 <= v < n for u, v in es),
        f"edges {es}",
    )
    if case["p"] == 0.0:
        ref.exact(es, [], "edges at probability zero")
    if case["p"] == 1.0:
        ref.exact(len(es), n * (n - 1) // 2, "edges at probability one")
    if es:
        dist = sc.get_edge_features("distance")
        ref.exact(
            sorted(frozenset(map(int, e)) for e in dist).__len__(),
            len(es),
            "edges with a distance",
        )
        d = {frozenset(map(int, e)): float(x) for e, x in dist.items()}
        ref.need(
            set(d) == {frozenset(e) for e in es}
            and all(0 <= x < 1 for x in d.values()),
            f"distances {d}",
        )
        all3 = gen.cliques3(es)
        want = [
            t
            for t in all3
            if all(
                d[frozenset(p)] < case["thr"]
                for p in ((t[0], t[1]), (t[1], t[2]), (t[0], t[2]))
            )
        ]
        got = sorted(tuple(sorted(int(v) for v in t)) for t in sc.triangles)
        ref.exact(got, sorted(want), "triangles")
        rec.mark(0 < len(want) < len(all3))
        ref.need(
            len(es) < 2 or len(set(d.values())) > 1, "all distances are equal"
        )
        m = sc.incidence_matrix(1) @ sc.incidence_matrix(2)
        ref.same(m, np.zeros((n, len(want))), "boundary of a boundary")
    ref.exact(sorted(int(k) for k in coords), list(range(n)), "coordinates")
    for p in coords.values():
        ref.need(
            len(p) == 2 and np.all(np.isfinite(np.asarray(p, float))),
            f"coordinates {p}",
        )
    first = state(sc, coords)
    random.seed(case["noise"])
    np.random.seed(case["noise"] % 2**32)
    call(case["other"])
    np.random.rand(3)
    again = state(*call(case["seed"]))
    for a, b, what in zip(
        first, again, ("nodes", "edges", "triangles", "distances", "coordinates")
    ):
        ref.exact(b, a, f"{what} of the same seed")
    if es:
        # the distances of a seed do not depend on the threshold, which is
        # strict: one of the distances is the threshold now
        edge = sorted(d, key=sorted)[case["pick"] % len(d)]
        exact, _ = call(case["seed"], d[edge])
        moved = {
            frozenset(map(int, e)): float(x)
            for e, x in exact.get_edge_features("distance").items()
        }
        ref.exact(moved, d, "distances with another threshold")
        got = sorted(tuple(sorted(int(v) for v in t)) for t in exact.triangles)
        want = [
            t
            for t in all3
            if all(d[frozenset((a, b))] < d[edge] for a, b in combinations(t, 2))
        ]
        ref.exact(got, sorted(want), f"triangles below {d[edge]}")
    if case["other"] != case["seed"] and n >= 4 and len(es) >= 3:
        other = state(*call(case["other"]))
        ref.need(
            other[1] != first[1] or other[3] != first[3],
            "two seeds give the same complex and distances",
        )


@st.composite
def rates(draw):
    return {
        "n": draw(st.integers(8, 14)),
        "p": draw(st.floats(0.03, 0.97)),
        "seed": draw(st.integers(0, 2**31 - 1)),
    }


def check_rate(case, rec):
    """Over many seeds the share of edges is the probability, and the
    distances fill [0, 1) evenly (7 standard deviations allowed)."""
    from pytspl import generate_random_simplicial_complex as make

    n, p, runs = case["n"], case["p"], 30
    pairs = n * (n - 1) // 2 * runs
    count, dist = 0, []
    for k in range(runs):
        sc, _ = make(
            num_of_nodes=n, p=p, dist_threshold=0.5, seed=case["seed"] + k
        )
        count += len(sc.edges)
        if len(sc.edges):
            dist += list(sc.get_edge_features("distance").values())
    rec.mark(True)
    ref.need(
        abs(count - p * pairs) <= 7 * np.sqrt(pairs * p * (1 - p)) + 1,
        f"{count} of {pairs} pairs are edges at probability {p}",
    )
    for q in (0.25, 0.5, 0.75):
        got = sum(x < q for x in dist)
        ref.need(
            abs(got - q * len(dist))
            <= 7 * np.sqrt(len(dist) * q * (1 - q)) + 1,
            f"{got} of {len(dist)} distances are below {q}",
        )


CLAUSES = [
    Clause("rates", rates, check_rate, 64, seeded=True),
    Clause("random complex", cases, check, 2400),
    Clause("larger", lambda: cases(most=60), check, 32, seeded=True),
]
