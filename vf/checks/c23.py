"""C23 trend filter: interpolation."""

from itertools import combinations

import numpy as np

from vf import gen, ref, st
from vf.checks.c21 import statistics
from vf.checks.c22 import operator, slack, solve
from vf.core import Clause, Skip

META = {
    "title": "Trend filter interpolation keeps observed flows, optimises the rest",
    "statement": (
        "For every complex, flow, component, order, weight and list of "
        "sampling ratios, each interpolated flow equals the flow exactly on a "
        "random set of floor(ratio times edges) observed edges, and among all "
        "flows doing so minimises the distance to the zero-filled "
        "observations plus the weight times the l1 norm of the order-k "
        "divergence (or curl) operator. With every edge observed the flow is "
        "returned unchanged. The recorded errors, component norms and "
        "correlations are the means over the realisations per ratio, and an "
        "unknown component is a ValueError."
    ),
    "over": ["inputs"],
    "quantifier": "every complex, flow, component, order, weight, ratios",
    "why": (
        "the tests of the trend filter need a dataset file that is not in the "
        "repository, so none of them runs"
    ),
    "files": ["pytspl/filters/simplicial_trend_filter.py"],
    "mechanism": [
        {
            "name": "sampling and constrained problem",
            "where": "SimplicialTrendFilter.interpolation_l1_regularizer",
        },
        {
            "name": "operator of order k",
            "where": "SimplicialTrendFilter.get_shift_operator",
        },
    ],
}
RULE = (
    "random complex and flow, order 0..6, weight, one to three ratios in "
    "[0, 1], 1..2 realisations; the observed set is read off the result and "
    "the objective compared with an independently solved problem; non-trivial "
    "= some but not all edges observed and a non-zero regulariser"
)
ASSUMPTIONS = [
    "the conic solvers bundled with cvxpy are accurate to 1e-5; a case on "
    "which such a solver gives up (SolverError) is counted as outside the "
    "domain"
]


def optimum(S, f, seen, mu):
    import cvxpy as cp

    free = [e for e in range(len(f)) if e not in seen]
    base = np.where([e in seen for e in range(len(f))], f, 0.0)
    y = cp.Variable(len(free))
    obj = cp.norm(y)
    if S.shape[0]:
        obj = obj + mu * cp.norm(S[:, free] @ y + S @ base, 1)
    prob = cp.Problem(cp.Minimize(obj))
    solve(prob)
    return float(prob.value)


@st.composite
def cases(draw, large=False):
    comp = draw(st.sampled_from(["divergence", "curl"]))
    c = draw(
        gen.complex_flow(
            min_nodes=9 if large else 3, max_nodes=14 if large else 6, nonzero=True, need_tri=comp == "curl"
        )
    )
    # no observed value coincides with an interpolated one by accident, at
    # times but for zeros
    fill = 0.0 if not large and draw(st.integers(0, 5)) == 0 else 1.0
    if fill == 0.0 and draw(st.booleans()):
        one = draw(st.integers(0, len(c["edges"]) - 1))
        c["flow"] = [x if i == one else 0 for i, x in enumerate(c["flow"])]
    c["flow"] = [
        (x if x else fill) * (1 + 0.0137 * (i + 1)) for i, x in enumerate(c["flow"])
    ]
    if not any(c["flow"]):
        c["flow"][0] = 1.0
    c["component"] = comp
    c["order"] = draw(st.integers(0, 2 if large else 6))
    wide = not large and draw(st.integers(0, 2)) == 0
    c["mu"] = draw(st.log_floats(1e-5, 100.0) if wide else st.log_floats(1e-2, 10.0))
    c["size"] = draw(st.sampled_from([1.0, 1.0, 1.0, 20.0, 0.3]))
    E = len(c["edges"])
    kinds = []
    for _ in range(draw(st.integers(1, 3))):
        m = draw(st.integers(0, E))
        # strictly inside [m/E, (m+1)/E), where rounding cannot matter
        kinds.append(1.0 if m == E else (m + draw(st.floats(0.05, 0.95))) / E)
    if draw(st.integers(0, 7)) == 0:
        kinds[-1] = 0.0
    c["ratio"] = kinds
    c["real"] = draw(st.integers(1, 2))
    if draw(st.integers(0, 29)) == 0:
        c["ratio"] = c["ratio"][:1]
        c["real"] = draw(st.integers(4, 24))
    c["plain"] = draw(st.integers(0, 4)) == 0
    c["ints"] = draw(st.sampled_from(["", "", "", "int64", "narrow"]))
    c["bad"] = draw(st.sampled_from(["", "div", "gradient", "Curl"]))
    return c


def check(case, rec):
    from pytspl.filters import SimplicialTrendFilter

    sc = ref.build(case)
    fil = SimplicialTrendFilter(sc)
    f = ref.vec(case["flow"])
    f = f / float(np.max(np.abs(f))) * case["size"]
    E = len(f)
    given = ref.Unit({"form": case.get("form", "")}).up(f)
    if case["ints"] and np.all(f):
        # different integers, in the order of the flow
        f = np.sign(f) * (1 + np.argsort(np.argsort(f)))
        given = f.astype(np.int64)
        if case["ints"] == "narrow":
            given = ref.narrow_ints(f)
        rec.label("integers")
    comp = case["component"]
    k, mu = (0, 0.5) if case["plain"] else (case["order"], case["mu"])
    kw = {} if case["plain"] else {"order": k, "regularization": mu}
    from cvxpy.error import SolverError

    try:
        fil.interpolation_l1_regularizer(
            flow=given,
            component=comp,
            ratio=np.array(case["ratio"]),
            num_realizations=case["real"],
            **kw,
        )
    except SolverError:
        raise Skip("the conic solver did not converge")
    fr = ref.arr(fil.history["frequency_responses"])
    statistics(
        fil, sc, comp, f, fr, len(case["ratio"]), case["real"], "interpolation"
    )
    S = operator(case, comp, k)
    rec.label(comp, f"order {k}")
    for i, r in enumerate(case["ratio"]):
        M = int(np.floor(E * r))
        for j in range(case["real"]):
            x = fr[:, i, j]
            seen = [e for e in range(E) if abs(x[e] - f[e]) <= 1e-5 * case["size"]]
            ref.need(
                len(seen) >= M,
                f"only {len(seen)} of {E} values kept at ratio {r:.4g}, "
                f"expected {M}: {x.tolist()} from {f.tolist()}",
            )
            if M == E:
                ref.same(x, f, "fully observed flow", 1e-5, case["size"])
                rec.label("all observed")
                continue
            if M == 0:
                rec.label("none observed")
            sets = list(combinations(seen, M))
            if len(sets) > 1:
                rec.label("observed set ambiguous")
            else:
                rec.label("observed set known")
                rec.mark(bool(np.any(S)))
            gaps = []
            for part in sets:
                base = np.zeros(E)
                base[list(part)] = f[list(part)]
                cost = np.linalg.norm(x - base) + mu * np.sum(np.abs(S @ x))
                best = optimum(S, f, set(part), mu)
                gaps.append((abs(cost - best), cost, best, part))
                if gaps[-1][0] <= slack(S, f, mu):
                    break
            gap, cost, best, part = min(gaps)
            ref.need(
                gap <= slack(S, f, mu),
                f"interpolation costs {cost:.6g}, the optimum is {best:.6g} "
                f"(observed {list(part)}, order {k}, weight {mu:.3g})",
            )
    if case["real"] == 2:
        rec.label("two realisations")
    ref.raises(
        ValueError,
        lambda: fil.interpolation_l1_regularizer(
            flow=f,
            component=case["bad"],
            ratio=np.array([0.5]),
            num_realizations=1,
        ),
        f"component {case['bad']!r}",
    )


@st.composite
def sampling_cases(draw):
    c = draw(
        gen.complex_flow(min_nodes=5, max_nodes=7, nonzero=True, connected=True)
    )
    c["flow"] = [
        (x if x else 1.0) * (1 + 0.0137 * (i + 1)) for i, x in enumerate(c["flow"])
    ]
    c["m"] = draw(st.integers(1, 20))
    c["part"] = draw(st.floats(0.05, 0.95))
    return c


def check_sampling(case, rec):
    """The observed set has the right size, is drawn anew, and reaches every
    edge. With so small a weight the flow is zero off the observed edges."""
    from pytspl.filters import SimplicialTrendFilter

    fil = SimplicialTrendFilter(ref.build(case))
    f = ref.vec(case["flow"])
    f = f / float(np.max(np.abs(f)))
    f[np.abs(f) < 0.05] += 0.1
    E = len(f)
    m = 1 + case["m"] % (E - 1)
    R = 60
    from cvxpy.error import SolverError

    try:
        fil.interpolation_l1_regularizer(
            flow=f,
            component="divergence",
            ratio=np.array([(m + case["part"]) / E]),
            num_realizations=R,
            order=0,
            regularization=1e-4,
        )
    except SolverError:
        raise Skip("the conic solver did not converge")
    fr = ref.arr(fil.history["frequency_responses"])[:, 0, :]
    seen = np.abs(fr - f[:, None]) <= 1e-4
    blank = np.abs(fr) <= 1e-4
    ref.need(np.all(seen ^ blank), "a value is neither observed nor zero")
    ref.need(
        np.all(np.sum(seen, axis=0) == m),
        f"{sorted(set(np.sum(seen, axis=0)))} of {E} edges observed at ratio "
        f"{(m + case['part']) / E:.4g}, expected {m}",
    )
    if 3 * m < E or 3 * (E - m) < E:
        return
    # each edge is observed, or not, with probability at least 1/3
    ref.need(
        np.all(np.any(seen, axis=1)) and not np.any(np.all(seen, axis=1)),
        f"over {R} realisations the observed sets never vary: "
        f"{np.sum(seen, axis=1).tolist()}",
    )
    rec.mark()


CLAUSES = [
    Clause("interpolation", cases, check, 1600),
    Clause("large", lambda: cases(large=True), check, 160),
    Clause("sampling", sampling_cases, check_sampling, 120),
]
