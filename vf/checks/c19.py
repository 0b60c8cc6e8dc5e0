"""C19 general two-part filters."""

import numpy as np

from vf import gen, ref, st
from vf.core import Clause, Fixed, Skip

META = {
    "title": "General filters split a flow into parts that always sum to it",
    "statement": (
        "For both the least-squares and the grid-based design, every complex, "
        "flow and pair of sizes (zero switches a part off), the general filter "
        "returns harmonic, curl and gradient estimates, in this order, that "
        "sum to the flow; the gradient and curl parts equal what the separate "
        "extraction of that size (and of the given tolerance, 0.001 by "
        "default) on the lower and upper Laplacian gives. "
        "Afterwards the filter holds one separate record per part, belonging "
        "to that part's size, filter and estimate, and none for a part "
        "switched off."
    ),
    "over": ["inputs"],
    "quantifier": "every complex, flow, pair of sizes and design",
    "why": (
        "the tests check rounded totals for one pair of sizes; the split and "
        "the record per part must hold for every pair, also with zero"
    ),
    "files": [
        "pytspl/filters/ls_filter_design.py",
        "pytspl/filters/grid_based_filter_design.py",
    ],
    "mechanism": [
        {"name": "least-squares design", "where": "LSFilterDesign.general_filter"},
        {"name": "grid design", "where": "GridBasedFilterDesign.general_filter"},
    ],
}
RULE = (
    "random complex with a triangle and flow, sizes 0..5, earlier call or "
    "not; oracle: the fit on the reference spectrum plus the sum; non-trivial "
    "= both parts are on and non-zero"
)


PART = {"L1L": "L1", "L1U": "L2"}


@st.composite
def cases(draw, big=True):
    c = draw(
        gen.complex_flow(
            min_nodes=2,
            max_nodes=7,
            big=big,
            nonzero=True,
            need_tri=draw(st.integers(0, 4)) > 0,
        )
    )
    c["design"] = draw(st.sampled_from(["ls", "grid"]))
    c["L1"] = draw(st.integers(0, 5))
    c["L2"] = draw(st.integers(0, 5))
    if draw(st.integers(0, 5)) == 0:
        c[draw(st.sampled_from(["L1", "L2"]))] = draw(st.integers(6, 12))
    c["tol"] = draw(st.sampled_from([None, 1e-6, 1e-4, "cut", "cut"]))
    c["before"] = draw(st.integers(0, 2))
    return c


def check(case, rec):
    from pytspl.filters import GridBasedFilterDesign, LSFilterDesign

    sc = ref.build(case)
    f = ref.vec(case["flow"])
    E = len(f)
    s = max(1.0, float(np.max(np.abs(f)))) * E
    ls = case["design"] == "ls"
    fil = LSFilterDesign(sc) if ls else GridBasedFilterDesign(sc)
    if case["before"]:
        fil.general_filter(f=f[::-1].copy(), L1=case["before"], L2=1)
    ops = {op: ref.operator(case, op) for op in ("L1L", "L1U")}
    tol = case["tol"] if ls else None
    merged = {}
    if ls:
        for op, P in ops.items():
            merged[op], gap = ref.merge(ref.spectrum(P))
            if gap < 2e-3:
                raise Skip("nearly equal eigenvalues")
        if tol == "cut":
            tol = ref.joint_cut(
                [merged[op] for op in merged if case[PART[op]]]
            )
    kw = {"tolerance": tol} if tol else {}
    size = {}
    for op, key in PART.items():
        size[key] = case[key]
        if ls and not ref.cut_spectrum(merged[op], tol)[2]:
            # more coefficients leave the fit undetermined
            n = len(ref.cut_spectrum(merged[op], tol)[1])
            size[key] = min(size[key], n)
    u = ref.Unit(case)
    out = fil.general_filter(f=u.up(f), L1=size["L1"], L2=size["L2"], **kw)
    ref.need(len(out) == 3, f"{len(out)} results, expected three")
    h, c, g = (u.down(np.asarray(x, float) + np.zeros(E)) for x in out)
    most = max(float(np.max(np.abs(x), initial=0.0)) for x in (h, c, g))
    ref.same(h + c + g, f, "sum of the parts", 1e-9, max(s, most))
    rec.label(case["design"])
    hist = fil.history
    ref.need(
        set(hist) == {"L1", "L2"}, f"records {sorted(map(str, hist))}"
    )
    on = 0
    for key, part, name, op in (
        ("L1", g, "gradient", "L1L"),
        ("L2", c, "curl", "L1U"),
    ):
        L = size[key]
        if L == 0:
            ref.same(part, np.zeros(E), f"{name} part switched off", 1e-12)
            ref.need(hist[key] is None, f"{name}: record of a part that is off")
            rec.label("part off")
            continue
        P = ops[op]
        if ls:
            _, pts, full = ref.cut_spectrum(merged[op], tol)
            if not full:
                rec.label("tolerance above an eigenvalue")
            y = (pts > 1e-9) * 1.0
        else:
            pts = np.linspace(0, float(ref.spectrum(P)[-1]), 10)
            y = 1 / (1 + np.exp(-100 * (pts - 0.01)))
        cond = ref.vander_cond(pts, L)
        if cond > 1e8:
            raise Skip("ill-conditioned")
        acc = 1e-9 + 2e-14 * cond * cond**0.25
        H = ref.of_matrix(P, lambda x: ref.poly_fit(pts, y, L, x))
        ref.same(part, H @ f, f"{name} part", acc, s)
        on += bool(np.max(np.abs(part)) > 1e-6)
        r = hist[key]
        ref.need(isinstance(r, dict), f"{name}: no record")
        ref.same(u.down(r["f_estimated"]), part, f"{name}: recorded estimate", 1e-9, s)
        ref.same(r["filter"], H, f"{name}: recorded filter", acc)
        ref.need(
            np.shape(r["extracted_component_error"]) == (L,)
            and np.shape(r["frequency_responses"]) == (L, E),
            f"{name}: record is not of size {L}",
        )
        w = ref.spectrum(P)
        ref.same(
            r["frequency_responses"][L - 1],
            ref.poly_fit(pts, y, L, w),
            f"{name}: recorded response",
            acc,
        )
        true = dict(zip(ref.COMPONENTS, ref.projectors(case)))[name] @ f
        if np.linalg.norm(true) > 1e-6 * s:
            ref.same(
                r["extracted_component_error"][L - 1],
                ref.nrmse(H @ f, true),
                f"{name}: recorded error",
                acc * s / np.linalg.norm(true),
            )
    rec.mark(on == 2)


def check_slow(case, rec):
    """The default tolerance, on complexes with modes near it."""
    from pytspl.filters import LSFilterDesign

    sc = ref.build(case)
    E = len(case["edges"])
    f = np.random.default_rng(E).normal(size=E)
    P = ref.operator(case, "L1L")
    pts, _ = ref.merge(ref.spectrum(P))
    if np.any(np.abs(pts - 1e-3) < 1e-7):
        raise Skip("a mode at the tolerance")
    _, cut, full = ref.cut_spectrum(pts, 1e-3)
    if np.min(np.diff(cut)) < 1.0001e-3:
        raise Skip("nearly equal eigenvalues")
    for L in (1, 2, 3):
        out = LSFilterDesign(sc).general_filter(f=f, L1=L, L2=0)
        h, c, g = (np.asarray(x, float) + np.zeros(E) for x in out)
        H = ref.of_matrix(
            P, lambda x: ref.poly_fit(cut, (cut > 0) * 1.0, L, x)
        )
        ref.same(g, H @ f, f"gradient part, size {L}, default tolerance", 1e-8)
        ref.same(c, np.zeros(E), "curl part switched off", 1e-12)
        ref.same(h + g, f, "sum of the parts", 1e-9, 10)
    rec.label("below the tolerance" if not full else "above the tolerance")
    rec.mark()


CLAUSES = [
    Fixed("slow modes", gen.slow_cases, check_slow),
    Clause("general filter", cases, check, 4000),
    Clause("large", lambda: cases(big="large-tame"), check, 48, seeded=True),
]
