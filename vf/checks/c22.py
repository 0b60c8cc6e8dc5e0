"""C22 trend filter: l1 denoising."""

import numpy as np

from vf import gen, ref, st
from vf.checks.c21 import statistics
from vf.core import Clause, Skip

META = {
    "title": "Trend filter l1 denoising solves its optimisation problem",
    "statement": (
        "For every complex, flow, component, order, weight and noise level, "
        "each l1-denoised flow minimises the distance to the noisy flow plus "
        "the weight times the l1 norm of the order-k divergence (or curl) "
        "operator applied to it. The recorded errors, component norms and "
        "correlations are the means over the realisations per noise level; an "
        "unknown component or negative order is a ValueError."
    ),
    "over": ["inputs"],
    "quantifier": "every complex, flow, component, order, weight, noise ratios",
    "why": (
        "the tests of the trend filter need a dataset file that is not in the "
        "repository, so none of them runs"
    ),
    "files": ["pytspl/filters/simplicial_trend_filter.py"],
    "mechanism": [
        {
            "name": "convex problem",
            "where": "SimplicialTrendFilter._solver, denoising_l1_regularizer",
        },
        {
            "name": "operator of order k",
            "where": "SimplicialTrendFilter.get_shift_operator",
        },
    ],
}
RULE = (
    "random complex and flow, order 0..6, weight 0.01..10, one to three noise "
    "ratios; at 300 dB the noise is negligible and the objective is compared "
    "with a dual lower bound from an independently formulated problem; "
    "non-trivial = the optimum differs from the flow"
)
ASSUMPTIONS = [
    "the conic solvers bundled with cvxpy are accurate to 1e-5; a case on "
    "which such a solver gives up (SolverError) is counted as outside the "
    "domain"
]


def operator(case, comp, k):
    start = ref.b1(case) if comp == "divergence" else ref.b2(case).T
    out = start
    for i in range(k):
        out = (start.T if i % 2 == 0 else start) @ out
    return out


def solve(prob):
    import cvxpy as cp
    from cvxpy.error import SolverError

    for kw in (
        {},
        {"solver": cp.ECOS, "abstol": 1e-9, "reltol": 1e-9},
        {"solver": cp.SCS, "eps": 1e-8, "max_iters": 50000},
    ):
        try:
            prob.solve(**kw)
        except (SolverError, ValueError):
            continue
        if prob.status == "optimal":
            return
    raise Skip("the reference problem was not solved")


def dual_bound(S, f, mu):
    """min |f-x| + mu |Sx|_1 >= max { z'Sf : |S'z| <= 1, |z|_inf <= mu }:
    any feasible z gives a lower bound."""
    import cvxpy as cp

    if S.shape[0] == 0 or not np.any(S):
        return 0.0
    z = cp.Variable(S.shape[0])
    prob = cp.Problem(
        cp.Maximize((S @ f) @ z),
        [cp.norm(S.T @ z) <= 1, cp.norm(z, "inf") <= mu],
    )
    solve(prob)
    v = np.asarray(z.value, float)
    v = v / max(1.0, np.linalg.norm(S.T @ v), np.max(np.abs(v)) / mu)
    return max(0.0, float(v @ S @ f))


@st.composite
def cases(draw, large=False):
    comp = draw(st.sampled_from(["divergence", "curl"]))
    c = draw(
        gen.complex_flow(
            min_nodes=9 if large else 3,
            max_nodes=14 if large else 6,
            nonzero=True,
            need_tri=comp == "curl",
        )
    )
    c["component"] = comp
    c["order"] = draw(st.integers(0, 2 if large else 6))
    wide = not large and draw(st.integers(0, 2)) == 0
    c["mu"] = draw(st.log_floats(1e-5, 100.0) if wide else st.log_floats(1e-2, 10.0))
    c["size"] = draw(st.sampled_from([1.0, 1.0, 1.0, 20.0, 0.3]))
    c["snr"] = draw(st.lists(st.floats(0.0, 40.0), min_size=1, max_size=4))
    c["clean"] = draw(st.sampled_from([True, True, False]))
    c["real"] = draw(st.integers(1, 3))
    if draw(st.integers(0, 29)) == 0:
        c["snr"] = c["snr"][:1]
        c["real"] = draw(st.integers(4, 24))
    c["plain"] = draw(st.integers(0, 4)) == 0
    c["ints"] = draw(st.sampled_from(["", "", "", "int64", "narrow"]))
    c["bad"] = draw(st.sampled_from(["", "div", "gradient", "Curl"]))
    return c


def slack(S, f, mu):
    """What solver accuracy may cost."""
    return 2e-4 * max(1.0, np.linalg.norm(f)) + 1e-6 * mu * np.max(
        np.abs(S), initial=0
    ) * len(f)


def check(case, rec):
    from pytspl.filters import SimplicialTrendFilter

    sc = ref.build(case)
    fil = SimplicialTrendFilter(sc)
    f = ref.vec(case["flow"])
    s = float(np.max(np.abs(f)))
    f = f / s * case["size"]  # the solvers have absolute tolerances
    given = ref.Unit({"form": case.get("form", "")}).up(f)
    if case["ints"]:
        f = np.round(f / case["size"] * 9)
        given = f.astype(np.int64)
        if case["ints"] == "narrow":
            given = ref.narrow_ints(f)
        rec.label("integers")
    comp = case["component"]
    clean = case["clean"]
    snr = [300.0] if clean else case["snr"]
    k, mu = (0, 0.5) if case["plain"] else (case["order"], case["mu"])
    kw = {} if case["plain"] else {"order": k, "regularization": mu}
    from cvxpy.error import SolverError

    def run(**kw):
        np.random.seed(11)
        try:
            fil.denoising_l1_regularizer(
                flow=given,
                component=comp,
                num_realizations=case["real"],
                snr_db=np.array(snr),
                **kw,
            )
        except SolverError:
            raise Skip("the conic solver did not converge")
        return ref.arr(fil.history["frequency_responses"]).copy()

    # with the weight zero the estimate is the noisy flow itself
    noisy = run(order=k, regularization=0.0)
    known = not clean and np.allclose(
        noisy, run(order=0, regularization=0.0), atol=1e-5
    )
    fr = run(**kw)
    statistics(fil, sc, comp, f, fr, len(snr), case["real"], "l1")
    rec.label(comp, f"order {k}", "clean" if clean else "noisy")
    S = operator(case, comp, k)
    if clean:
        best = dual_bound(S, f, mu)
        for j in range(case["real"]):
            x = fr[:, 0, j]
            cost = np.linalg.norm(f - x) + mu * np.sum(np.abs(S @ x))
            gap = cost - best
            ref.need(
                gap <= slack(S, f, mu),
                f"l1 estimate costs {cost:.6g}, but at least one flow costs "
                f"{best:.6g} (order {k}, weight {mu:.3g})",
            )
            ref.need(
                np.linalg.norm(f - x) <= np.linalg.norm(f) * (1 + 1e-3)
                or cost <= best + 1e-3,
                "l1 estimate is further away than the zero flow",
            )
            if np.max(np.abs(x - f)) > 1e-2:
                rec.mark()
    else:
        sd = np.linalg.norm(f) / 10 ** (np.array(snr) / 10) / len(f)
        for i in range(len(snr)):
            for j in range(case["real"]):
                x = fr[:, i, j]
                if known:
                    y = noisy[:, i, j]
                    cost = np.linalg.norm(y - x) + mu * np.sum(np.abs(S @ x))
                    best = dual_bound(S, y, mu)
                    ref.need(
                        cost - best <= 1e-4 + slack(S, y, mu),
                        f"l1 estimate of noise level {i}, realisation {j} costs "
                        f"{cost:.6g} instead of {best:.6g} (order {k}, weight "
                        f"{mu:.3g})",
                    )
                    rec.label("noise known")
                    continue
                # noise n with |n| <= 7 sqrt(E) sd: the optimum cannot cost
                # more than keeping the noisy flow's competitors
                n = 7 * np.sqrt(len(f)) * sd[i]
                cost = np.linalg.norm(f - x) + mu * np.sum(np.abs(S @ x))
                best = dual_bound(S, f, mu)
                ref.need(
                    cost <= best + 2 * n + 1e-2,
                    f"noisy l1 estimate costs {cost:.4g} against {best:.4g} "
                    f"(noise {n:.3g})",
                )
        rec.mark(len(snr) > 1)
    ref.raises(
        ValueError,
        lambda: fil.denoising_l1_regularizer(
            flow=f,
            component=case["bad"],
            num_realizations=1,
            snr_db=np.array([1.0]),
        ),
        f"component {case['bad']!r}",
    )
    ref.raises(
        ValueError,
        lambda: fil.denoising_l1_regularizer(
            flow=f,
            component=comp,
            num_realizations=1,
            snr_db=np.array([1.0]),
            order=-1,
        ),
        "negative order",
    )


@st.composite
def noise_cases(draw):
    c = draw(
        gen.complex_flow(min_nodes=5, max_nodes=7, nonzero=True, need_tri=True)
    )
    c["component"] = draw(st.sampled_from(["divergence", "curl"]))
    c["order"] = draw(st.integers(0, 2))
    c["snr"] = draw(st.lists(st.floats(-5.0, 15.0), min_size=1, max_size=2))
    return c


def check_noise(case, rec):
    """With a negligible weight the estimate is the noisy flow itself, which
    shows the noise that was added."""
    from pytspl.filters import SimplicialTrendFilter

    fil = SimplicialTrendFilter(ref.build(case))
    f = ref.vec(case["flow"])
    f = f / np.linalg.norm(f)
    E = len(f)
    R = max(2, 240 // E)
    from cvxpy.error import SolverError

    try:
        fil.denoising_l1_regularizer(
            flow=f,
            component=case["component"],
            num_realizations=R,
            snr_db=np.array(case["snr"]),
            order=case["order"],
            regularization=1e-5,
        )
    except SolverError:
        raise Skip("the conic solver did not converge")
    fr = ref.arr(fil.history["frequency_responses"])
    for i, db in enumerate(case["snr"]):
        sd = 1 / 10 ** (db / 10) / E
        z = (fr[:, i, :] - f[:, None]) / sd
        n = z.size
        ref.need(
            abs(z.std() - 1) < 7 / np.sqrt(2 * n) + 0.02
            and abs(z.mean()) < 7 / np.sqrt(n) + 0.02,
            f"noise at {db} dB: mean {z.mean():.3g}, deviation "
            f"{z.std():.3g} of its level",
        )
        ref.need(
            all(
                np.max(np.abs(z[:, a] - z[:, b])) > 1e-3
                for a in range(R)
                for b in range(a)
            ),
            "two realisations share the same noise",
        )
    rec.mark()


CLAUSES = [
    Clause("l1", cases, check, 2400),
    Clause("large", lambda: cases(large=True), check, 160),
    Clause("noise level", noise_cases, check_noise, 120),
]
