"""C21 trend filter: shift operators, noise, l2 denoising."""

import numpy as np

from vf import gen, ref, st
from vf.core import Clause

META = {
    "title": "Trend filter: shift operators, noise level and l2 denoising are exact",
    "statement": (
        "For every complex, the trend filter's operator of order k is k "
        "alternating applications of the incidence map and its transpose "
        "after the divergence (or the curl), and a negative order is a "
        "ValueError. For every flow, list of noise ratios in dB, number of "
        "realisations and weight, l2 denoising adds independent Gaussian "
        "noise scaled by the flow norm over ratio and edge count and returns "
        "the minimiser of squared distance plus weight times squared "
        "divergence (or curl). The recorded errors, component norms and "
        "correlations are, per noise ratio, the means over its realisations, "
        "and a component other than divergence or curl is a ValueError."
    ),
    "over": ["inputs"],
    "quantifier": (
        "every complex, order, flow, noise ratios, realisations and weight"
    ),
    "why": (
        "the tests of the trend filter need a dataset file that is not in the "
        "repository, so none of them runs"
    ),
    "files": ["pytspl/filters/simplicial_trend_filter.py"],
    "mechanism": [
        {
            "name": "shift operators",
            "where": "SimplicialTrendFilter.get_shift_operator",
        },
        {
            "name": "noise level",
            "where": "SimplicialTrendFilter.get_power_noise",
        },
        {
            "name": "l2 denoising",
            "where": "SimplicialTrendFilter.denoising_l2_regularizer",
        },
    ],
}
RULE = (
    "random complex and flow, orders -3..6, 1..4 noise ratios in -5..300 dB, "
    "1..4 realisations; oracle: products of reference matrices, linear solve, "
    "recomputed statistics, noise recovered by inverting the filter; "
    "non-trivial = curl with triangles or two noise ratios"
)


@st.composite
def op_cases(draw, big=True):
    c = draw(gen.complexes(min_nodes=2, max_nodes=8, big=big))
    c["order"] = draw(st.integers(0, 9))
    c["neg"] = draw(st.integers(-4, -1))
    return c


def check_ops(case, rec):
    from pytspl.filters import SimplicialTrendFilter

    fil = SimplicialTrendFilter(ref.build(case))
    d1, d2 = ref.b1(case), ref.b2(case)
    for comp, start in (("divergence", d1), ("curl", d2.T)):
        for k in (case["order"], 0, 1):
            want = start
            for i in range(k):
                want = (start.T if i % 2 == 0 else start) @ want
            got = ref.arr(fil.get_shift_operator(component=comp, order=k))
            if comp == "curl" and k % 2 == 0 and got.shape == want.shape:
                # the orientation of a triangle is free
                sign = np.sign(np.sum(got * want, axis=1))
                want = np.where(sign < 0, -1.0, 1.0)[:, None] * want
            ref.same(got, want, f"{comp} operator of order {k}", 1e-9)
        ref.raises(
            ValueError,
            lambda: fil.get_shift_operator(component=comp, order=case["neg"]),
            f"order {case['neg']}",
        )
    rec.mark(case["order"] > 1 and len(case["tris"]) > 0)
    rec.label(f"order {case['order']}")


def statistics(fil, sc, comp, f, fr, n_levels, n_real, what):
    E = len(f)
    h = fil.history
    ref.need(
        fr.shape == (E, n_levels, n_real),
        f"{what}: estimates have shape {fr.shape}",
    )
    D = {"divergence": "get_divergence", "curl": "get_curl"}[comp]
    errs = [
        np.mean([ref.nrmse(fr[:, i, j], f) for j in range(n_real)])
        for i in range(n_levels)
    ]
    ref.same(h["errors"], errs, f"{what}: errors", 1e-9)
    norms = [
        np.mean(
            [
                np.linalg.norm(ref.arr(getattr(sc, D)(fr[:, i, j])))
                for j in range(n_real)
            ]
        )
        for i in range(n_levels)
    ]
    ref.same(h["component_flow"], norms, f"{what}: component norms", 1e-9)
    ref.need(
        np.shape(h["correlations"]) == (n_levels,), f"{what}: correlations"
    )
    for i in range(n_levels):
        cs = []
        for j in range(n_real):
            x, y = f - f.mean(), fr[:, i, j] - fr[:, i, j].mean()
            a, b = np.linalg.norm(x), np.linalg.norm(y)
            if a <= 1e-3 * np.linalg.norm(f) or b <= 1e-3 * np.linalg.norm(
                fr[:, i, j]
            ) or b < 1e-9:
                break
            cs.append(x @ y / a / b)
        else:
            ref.same(
                h["correlations"][i], np.mean(cs), f"{what}: correlation", 1e-6
            )


@st.composite
def l2_cases(draw, big=True):
    comp = draw(st.sampled_from(["divergence", "curl"]))
    c = draw(
        gen.complex_flow(
            min_nodes=3,
            max_nodes=7,
            big=big,
            nonzero=True,
            need_tri=comp == "curl" and draw(st.integers(0, 4)) > 0,
        )
    )
    c["component"] = comp
    c["snr"] = draw(st.lists(st.floats(-5.0, 60.0), min_size=1, max_size=6))
    c["clean"] = draw(st.booleans())
    c["real"] = draw(st.integers(1, 6))
    if draw(st.integers(0, 14)) == 0:
        # many realisations, many or extreme noise levels
        c["real"] = draw(st.integers(7, 60))
    elif draw(st.integers(0, 9)) == 0:
        c["snr"] = draw(
            st.lists(st.floats(-60.0, 150.0), min_size=4, max_size=30)
        )
    c["mu"] = draw(st.log_floats(1e-2, 1e2))
    c["plain"] = draw(st.booleans())
    c["bad"] = draw(st.sampled_from(["", "div", "gradient", "Curl"]))
    return c


def check_l2(case, rec):
    from pytspl.filters import SimplicialTrendFilter

    sc = ref.build(case)
    fil = SimplicialTrendFilter(sc)
    f = ref.vec(case["flow"])
    given = ref.Unit({"form": case.get("form", "")}).up(f)
    E = len(f)
    comp = case["component"]
    snr = [300.0] * len(case["snr"]) if case["clean"] else case["snr"]
    kw = {} if case["plain"] else {"mu": case["mu"]}
    mu = 0.5 if case["plain"] else case["mu"]
    power, ratio = fil.get_power_noise(flow=given, snr_db=np.array(snr))
    ref.same(np.asarray(ratio) / 10 ** (np.array(snr) / 10), np.ones(len(snr)), "ratios", 1e-9)
    sd = np.linalg.norm(f) / 10 ** (np.array(snr) / 10) / E
    ref.same(np.asarray(power) / sd, np.ones(len(snr)), "noise level", 1e-9)
    np.random.seed(7)
    fil.denoising_l2_regularizer(
        flow=given,
        component=comp,
        num_realizations=case["real"],
        snr_db=np.array(snr),
        **kw,
    )
    h = fil.history
    P = ref.operator(case, "L1L" if comp == "divergence" else "L1U")
    A = np.eye(E) + mu * P
    fr = ref.arr(h["frequency_responses"]).copy()
    statistics(fil, sc, comp, f, fr, len(snr), case["real"], "l2")
    ref.same(ref.arr(h["filter"]) @ A, np.eye(E), "l2 filter", 1e-8)
    rec.label(comp, "clean" if case["clean"] else "noisy")
    rec.mark((comp == "curl" and len(case["tris"]) > 0) or len(snr) > 1)
    s = max(float(np.max(np.abs(f))), 1e-9)
    noise = np.einsum("ab,bij->aij", A, fr) - f[:, None, None]
    if case["clean"]:
        for i in range(len(snr)):
            for j in range(case["real"]):
                ref.same(
                    fr[:, i, j],
                    np.linalg.solve(A, f),
                    "noise-free l2 estimate",
                    2e-9,
                    s,
                )
    else:
        for i in range(len(snr)):
            for j in range(case["real"]):
                z = noise[:, i, j] / sd[i]
                slack = 1e-9 * mu * s * E * 20 / sd[i]
                ref.need(
                    np.max(np.abs(z)) < 7 + slack,
                    f"noise at {snr[i]} dB is {np.max(np.abs(z)):.3g} times its level",
                )
        flat = [
            (i, j, noise[:, i, j]) for i in range(len(snr)) for j in range(case["real"])
        ]
        for a in range(len(flat)):
            for b in range(a):
                ref.need(
                    sd[flat[a][0]] < 1e-6 * s
                    or np.max(np.abs(flat[a][2] / sd[flat[a][0]] - flat[b][2] / sd[flat[b][0]])) > 1e-6,
                    "two realisations share the same noise",
                )
    keep = fr.copy()
    np.random.seed(7)
    fil.denoising_l2_regularizer(
        flow=f,
        component=comp,
        num_realizations=case["real"],
        snr_db=np.array(snr),
        **kw,
    )
    ref.same(
        fil.history["frequency_responses"], keep, "repeat with the same seed", 1e-9
    )
    ref.raises(
        ValueError,
        lambda: fil.denoising_l2_regularizer(
            flow=f,
            component=case["bad"],
            num_realizations=1,
            snr_db=np.array([1.0]),
        ),
        f"component {case['bad']!r}",
    )


@st.composite
def noise_cases(draw):
    c = draw(gen.complex_flow(min_nodes=4, max_nodes=7, nonzero=True))
    c["snr"] = draw(st.lists(st.floats(-10.0, 25.0), min_size=1, max_size=3))
    c["component"] = draw(st.sampled_from(["divergence", "curl"]))
    return c


def check_noise(case, rec):
    """The noise has the stated level: sample deviation over many draws."""
    from pytspl.filters import SimplicialTrendFilter

    fil = SimplicialTrendFilter(ref.build(case))
    f = ref.vec(case["flow"])
    E = len(f)
    R = max(1, 600 // E)
    fil.denoising_l2_regularizer(
        flow=f,
        component=case["component"],
        num_realizations=R,
        snr_db=np.array(case["snr"]),
        mu=0.3,
    )
    P = ref.operator(
        case, "L1L" if case["component"] == "divergence" else "L1U"
    )
    A = np.eye(E) + 0.3 * P
    sd = np.linalg.norm(f) / 10 ** (np.array(case["snr"]) / 10) / E
    noise = (
        np.einsum("ab,bij->aij", A, ref.arr(fil.history["frequency_responses"]))
        - f[:, None, None]
    )
    for i, d in enumerate(sd):
        z = noise[:, i, :].ravel() / d
        n = len(z)
        ref.need(
            abs(z.std() - 1) < 7 / np.sqrt(2 * n)
            and abs(z.mean()) < 7 / np.sqrt(n),
            f"noise at {case['snr'][i]} dB: mean {z.mean():.3g}, deviation "
            f"{z.std():.3g} of its level",
        )
    rec.mark(len(sd) > 1)


CLAUSES = [
    Clause("operators", op_cases, check_ops, 3000),
    Clause("l2", l2_cases, check_l2, 3000),
    Clause("noise level", noise_cases, check_noise, 240),
    Clause("huge operators", lambda: op_cases(big="huge400"), check_ops, 24, seeded=True),
    Clause("huge l2", lambda: l2_cases(big="huge200"), check_l2, 24, seeded=True),
]
