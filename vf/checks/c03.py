"""C03 shift operators."""

import numpy as np
from vf import st

from vf import gen, ref
from vf.core import Clause

META = {
    "title": "Shifting a flow k times applies the k-th Laplacian power",
    "statement": (
        "For every complex, flow and number of steps k, lower and upper "
        "shifting return the flow multiplied k times by the lower or upper "
        "edge Laplacian (one step when k is not given), and the k-step shift "
        "returns the sum of the k-fold lower and upper shifts (two steps when "
        "k is not given). Shifting is linear in the flow, and shifting i "
        "then j steps equals shifting i+j steps."
    ),
    "over": ["inputs"],
    "quantifier": "every complex, real flow on its edges and k >= 0",
    "why": (
        "the tests shift one flow once or twice; the number of steps is "
        "unbounded"
    ),
    "files": ["pytspl/simplicial_complex/simplicial_complex.py"],
    "mechanism": [
        {
            "name": "shift operators",
            "where": "SimplicialComplex.apply_lower_shifting, apply_upper_shifting, apply_k_step_shifting",
        }
    ],
}
RULE = (
    "random complex, flow and k in 1..6; oracle: repeated multiplication by "
    "reference Laplacians; non-trivial = k >= 2 and a flow with at least two "
    "non-zero entries on a complex with a triangle"
)


@st.composite
def cases(draw, big=True):
    c = draw(gen.complex_flow(flows=2, min_nodes=2, max_nodes=7, big=big))
    c["k"] = draw(st.sampled_from([0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 13]))
    c["i"] = draw(st.integers(1, 3))
    c["dtype"] = draw(st.sampled_from(["float", "float", "int"]))
    return c


def check(case, rec):
    sc = ref.build(case)
    f = ref.vec(case["flow"])
    g = ref.vec(case["flow2"])
    if case["dtype"] == "int":
        f, g = np.round(f).astype(int), np.round(g).astype(int)
    k, i = case["k"], case["i"]
    _, low, up = ref.laps(case)
    rec.label(f"k={k}")
    rec.mark(k >= 2 and np.count_nonzero(f) >= 2 and len(case["tris"]) > 0)
    wl = np.linalg.matrix_power(low, k) @ f
    wu = np.linalg.matrix_power(up, k) @ f
    sl = max(1.0, np.max(np.abs(f), initial=0)) * max(
        1.0, np.linalg.norm(low, 2) ** k
    )
    su = max(1.0, np.max(np.abs(f), initial=0)) * max(
        1.0, np.linalg.norm(up, 2) ** k
    )
    u = ref.Unit(case, wide=True)
    x = u.up(f)
    keep = x.copy()
    gl = u.down(sc.apply_lower_shifting(x, steps=k))
    gu = u.down(sc.apply_upper_shifting(x, steps=k))
    ref.same(gl, wl, f"lower shift by {k}", scale=sl)
    ref.same(gu, wu, f"upper shift by {k}", scale=su)
    ref.same(
        u.down(sc.apply_k_step_shifting(x, steps=k)),
        wl + wu,
        f"k-step shift by {k}",
        scale=sl + su,
    )
    ref.same(u.down(sc.apply_lower_shifting(x)), low @ f, "lower shift", scale=sl)
    ref.same(u.down(sc.apply_upper_shifting(x)), up @ f, "upper shift", scale=su)
    s2 = max(1.0, np.max(np.abs(f), initial=0)) * (
        np.linalg.norm(low, 2) ** 2 + np.linalg.norm(up, 2) ** 2 + 1
    )
    ref.same(
        u.down(sc.apply_k_step_shifting(x)),
        low @ low @ f + up @ up @ f,
        "two-step shift (default)",
        scale=s2,
    )
    # composition and linearity
    two = sc.apply_lower_shifting(
        np.asarray(sc.apply_lower_shifting(f, steps=i)), steps=k
    )
    one = sc.apply_lower_shifting(f, steps=i + k)
    ref.same(
        two, one, "composition of shifts", scale=sl * np.linalg.norm(low, 2) ** i + 1
    )
    m = max(1.0, np.max(np.abs(g), initial=0), np.max(np.abs(f), initial=0))
    lin = sc.apply_upper_shifting(2 * f - 3 * g, steps=k)
    ref.same(
        lin,
        2 * ref.arr(gu) - 3 * ref.arr(sc.apply_upper_shifting(g, steps=k)),
        "linearity of the upper shift",
        scale=10 * m * max(1.0, np.linalg.norm(up, 2) ** k),
    )
    ref.need(np.array_equal(keep, x), "shifting changed the given flow")


CLAUSES = [
    Clause("powers", cases, check, 2500),
    Clause("large", lambda: cases(big="large"), check, 200),
    Clause("huge", lambda: cases(big="huge"), check, 24, seeded=True),
]
